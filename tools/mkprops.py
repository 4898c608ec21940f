#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements stay in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "A mocked call runs exactly the first matching condition, with exact values",
 "While a mock is active, every call of the target (direct, through a function value, method value, interface, defer or go statement) evaluates the When conditions in the order they were added until one is true, and runs exactly that condition's To hook or yields its Return values, with no other hook and without the original running. Conditions and hooks (with or without the receiver parameter) receive exactly the caller's arguments and the caller gets exactly the hook's results or the Return values converted to the result types (nil becomes the zero value); a panic of a condition or hook reaches the caller unchanged.",
 ["inputs","programs"], "for every target signature (any number, size and kind of parameters and results, variadic, methods), every list of conditions and every argument value",
 "Tests mock a few small hand-written signatures with constant arguments; argument marshalling between registers, stack and reflection depends on the whole signature.",
 ["mock.go","mock_condition.go","internal/tool/call.go","internal/monkey/patch.go","internal/monkey/inst"],
 [("condition list matched in order, hook built by reflection","mock.go buildHook"),("argument adaption for missing receiver","mock_condition.go adaptArgsForReflectCall"),("Return conversion","mock_condition.go SetReturnForce")],
 [("conditions","ordered condition/hook pairs of a builder","mock.go MockBuilder")],
 ["event log of predicates, hooks and originals per call","call results"])

prop("C02", "Calls that no mock intercepts behave exactly like the unmocked function",
 "A call that reaches a mocked function but matches no condition, is filtered out, or whose matching condition has no hook, has exactly the effects of the original: the original runs exactly once with the caller's arguments (the very same variadic slice, pointers and interfaces, nil staying nil), its results, side effects, panics, deferred functions and stack needs are the caller's, and recursive calls it makes reach the mock again. Functions that are not mocked are not affected by any mock.",
 ["inputs","programs","schedules"], "for every signature, argument value and prologue of the target, at every stack depth, also under garbage collection and preemption",
 "Tests check one or two pass-through calls of tiny functions; relocating the function head, stack growth and preemption only fail for particular code shapes and moments.",
 ["mock.go","internal/monkey/patch.go","internal/monkey/inst/disasm_amd64.go","internal/tool/call.go","internal/tool/stack.go"],
 [("proxy page: relocated function head plus jump back","internal/monkey/patch.go PatchValue"),("pass-through","mock.go buildHook originExec")],
 [("proxy","function value running the original","mock.go Mocker.proxy")],
 ["argument/result digests and event log against an identical unmocked twin function"])

prop("C03", "Leaving a PatchConvey scope restores exactly what held before it",
 "When a PatchConvey scope ends - normally, by a failed assertion, a panic or runtime.Goexit - every function and variable mocked or re-mocked inside it and still active is released, whatever order the mocks were made in and however many there are, so that each function and variable behaves exactly as before the scope was entered. Mocks of enclosing scopes that were not touched stay in force unchanged, also when the inner scope mocked the same target. PatchConvey takes what convey.Convey takes (failure modes, actions with context); a scope skipped by a nil action changes nothing.",
 ["histories","programs"], "for every nesting, every set of mocks (including stacked ones, generic instances sharing code, overlapping variables) and every way of leaving a scope",
 "Tests nest at most two scopes with a couple of mocks and leave them normally; release order and stacking errors need specific histories (and depended on map iteration order).",
 ["convey.go","mock.go","mock_var.go"],
 [("scope stack and deferred release","convey.go PatchConvey"),("registration","convey.go addToGlobal / removeFromGlobal")],
 [("gMocker","stack of scopes holding active mocks","convey.go")],
 ["behaviour of every target and variable after each scope exit","code bytes of every target"])

prop("C04", "UnPatch, Patch, UnPatchAll and Release change exactly what they name",
 "UnPatch (and Release) ends the effect of exactly that mock and Patch brings it back, both idempotent, in any number of cycles and in any order relative to other mocks of the same or of other targets, made in the same or in an outer scope; UnPatchAll releases exactly the active mocks of the current scope. After Release the returned builder has no conditions and can be built again, a released target can be mocked again, and once all mocks of a target are released it is the original function again.",
 ["histories"], "for every sequence of lifecycle operations over any number of mocks, targets and scopes",
 "Tests use single Patch/UnPatch pairs on one mock; idempotence, out-of-order release and interplay with scopes are properties of whole histories.",
 ["mock.go","convey.go","mock_var.go","internal/monkey/patch.go"],
 [("isPatched flag under lock","mock.go Patch/UnPatch"),("stacked patches handed over","internal/monkey/patch.go Unpatch")],
 [("isPatched","whether the mock is in force","mock.go Mocker"),("patches","active patches per address","internal/monkey/patch.go")],
 ["behaviour of every target after every operation"])

prop("C05", "Mocking touches only the target's entry, and releasing restores every byte",
 "While mocks are active, the program's machine code differs from the pristine code only within the first instructions of the mocked targets, and after their release it is byte-for-byte identical to what it was. No page of program code is left writable or loses its execute permission, no other mapping changes its permissions, and any number of mock/release cycles leaves no additional executable page or other growing resource behind.",
 ["histories","inputs"], "for every set of targets (any size and address, including entries crossing a page boundary) and every history of mock and release operations",
 "Tests never look at code bytes, page protections or mappings; a stray byte or a leaked page stays invisible until unrelated code runs.",
 ["internal/monkey/patch.go","internal/monkey/mem/write.go","internal/monkey/mem/write_linux_amd64.s","internal/monkey/common/page.go","internal/monkey/common/page_alloc.go"],
 [("page-wise write under temporary protection","internal/monkey/mem"),("proxy page allocate/release","internal/monkey/common/page.go")],
 [("origin","saved bytes of the target's head","internal/monkey/patch.go Patch")],
 ["text segment snapshots","/proc/self/maps"])

prop("C06", "Times and MockTimes count every call exactly",
 "At every moment without a running call, Times equals the number of calls that reached the active mock since it was last activated (including calls that were filtered out, matched nothing or panicked) and MockTimes the number of those that were given to a hook or Return of the mock; while calls run concurrently both lie between the calls completed and the calls started. Both are zero after the mock is released or reconfigured, and MockTimes never exceeds Times.",
 ["schedules","histories"], "for every number of concurrent callers, every interleaving and every mix of matching and non-matching calls",
 "Tests count a handful of sequential calls; lost or duplicated updates need concurrency, and double counting needs preemption or stack growth at particular moments.",
 ["mock.go"],
 [("atomic counters","mock.go access/mock/Times/MockTimes"),("reset","mock.go UnPatch")],
 [("times, mockTimes","calls seen and mocked","mock.go Mocker")],
 ["counters sampled during and after concurrent workloads"])

prop("C07", "A Sequence hands out its values in order, cyclically, each the stated times",
 "The k-th mocked call answered by a Sequence (counting from 0 over all callers) gets the value tuple at position k modulo the total count of its list, in which each value appears as many times in a row as its Times says (1 by default). This holds for any number of goroutines: no position is skipped or handed out twice, and the tuple is never mixed from two positions.",
 ["schedules","inputs"], "for every sequence of values and repeat counts, every number of calls and every interleaving of concurrent calls",
 "TestSequenceRace checks totals for one fixed sequence; order and exactly-once under contention need recorded histories with distinguishable values.",
 ["mock_sequence.go","mock_condition.go"],
 [("cursor under lock","mock_sequence.go GetNext")],
 [("curV, curT","current value and how often it was used","mock_sequence.go sequence")],
 ["recorded call/return history with unique values"])

prop("C08", "Goroutine filters select exactly the named goroutine",
 "With an include filter a mock intercepts exactly the calls made on the named goroutine, with an exclude filter exactly the calls made on any other goroutine, and without filter (or after it is disabled) all calls, on any thread and for any goroutine id; all other calls pass to the original. GetGoroutineId returns the id the Go runtime itself reports, which is unique among live goroutines and constant for the goroutine's life.",
 ["schedules","inputs"], "for every set of goroutines, every id value and every interleaving with thread migration",
 "Tests use one extra goroutine and ids they get from the library itself.",
 ["mock.go","internal/tool/goroutine.go","internal/tool/goroutine_amd64.s"],
 [("filter switch","mock.go buildHook"),("goid read from the g structure","internal/tool/goroutine.go")],
 [("filterGoroutine, gId","filter mode and id","mock.go MockBuilder")],
 ["which goroutines' calls reach the hook","runtime.Stack header"])

prop("C09", "The Origin function always runs the original implementation once",
 "Inside a hook or condition, calling the function stored by Origin runs the original implementation (for a mock stacked on another one: what the target did before this mock) exactly once with the given arguments - and with the receiver of the mocked call if Origin's type has no receiver - and returns its results and panics, without being counted or changing the arguments of the mocked call. Recursive calls of the original reach the mock, Origin may be called any number of times with any arguments, and calling a stored Origin after its mock was released calls the target as it then is.",
 ["inputs","histories"], "for every signature, receiver form, argument value and recursion depth, and every reconfiguration or release between storing and calling Origin",
 "Tests call Origin once or twice in a hook of a small function; relocation, argument aliasing, stacking and use after release are not reached.",
 ["mock.go","internal/monkey/patch.go","internal/monkey/fn/inject.go"],
 [("origin closure","mock.go buildProxy"),("proxy code","internal/monkey/patch.go, internal/monkey/fn/inject.go")],
 [("proxyCaller","user's origin variable","mock.go MockBuilder")],
 ["event log of the original, results, counters"])

prop("C10", "Reconfiguring a mock takes effect at once and replaces only what it names",
 "Calling When, To, Return, Origin or a goroutine filter on a built mock makes it active with that part replaced and all other parts kept, from the next call on, with counters restarting at zero. The mock then belongs to the scope in which this happened and is released when that scope ends.",
 ["histories"], "for every sequence of reconfigurations, in any scope and any activation state of the mock",
 "Tests reconfigure a mock once or twice in a fixed order.",
 ["mock.go","mock_condition.go","convey.go"],
 [("rePatch","mock.go rePatch"),("forced setters","mock_condition.go Set*Force")],
 [("conditions[0]","the single condition that may be replaced","mock.go MockBuilder")],
 ["behaviour of the mock after every reconfiguration"])

prop("C11", "Requests that cannot be honoured panic and leave everything as it was",
 "Mocking something already mocked in the same scope, a target too short to patch, a non-function or non-pointer, a hook, condition or origin whose type does not fit, a second setting of the same part of a builder, a value of the wrong type for a variable, or reconfiguring a mock with several conditions panics with a message saying so (a re-mock names file and line of the active mock's latest activation). The rejected request has no effect: every target, variable, mock and scope behaves as if it had not been made, and a Return whose values do not fit the results panics in the mocked call instead of producing wrong results.",
 ["inputs","histories"], "for every kind of invalid request, at any point of any history",
 "Tests check a few rejections for the panic alone, never that the state is untouched afterwards.",
 ["mock.go","mock_condition.go","mock_var.go","convey.go","internal/tool/assert.go","internal/tool/check.go","internal/tool/caller.go","internal/monkey/inst/disasm_amd64.go"],
 [("assertions before changes","internal/tool/assert.go and callers"),("re-mock check","convey.go checkReMock"),("length check","internal/monkey/inst Disassemble")],
 [("outerCaller","where a mock was activated","mock.go, mock_var.go")],
 ["panic values, behaviour and code bytes after the rejection"])

prop("C12", "A mocked variable holds the mock value and gets its previous value back",
 "MockValue(&v).To(x) gives v exactly x (nil meaning the zero value) while it is active, for variables of any type, and releasing it gives v the value it had when the mock was activated, identical in type and content, without touching any other memory. To on an active mock replaces the value, Patch and UnPatch are idempotent, and variable mocks stacked in nested scopes or overlapping in memory (a struct and its fields, an array and its elements) restore correctly when their scopes end.",
 ["inputs","histories"], "for every variable type and value and every history of variable mocks and scopes",
 "Tests mock a string, an int and a struct; aliasing, interface-typed and overlapping variables and re-activation are not reached.",
 ["mock_var.go","convey.go"],
 [("save at activation, restore at release","mock_var.go Patch/UnPatch")],
 [("origin","value found at activation","mock_var.go MockerVar")],
 ["variable contents and their neighbours' bytes"])

prop("C13", "Mocks of generic functions and methods work for every instantiation",
 "A generic mock of an instantiation or of a method of a generic type intercepts the calls of that instantiation for every type argument and every parameter and result size, in plain and in race-detector builds, and only of instantiations sharing its compiled code; all other functions and instantiations are unaffected. Hooks and conditions may take the generic information and the receiver or leave them out, the generic information tells the actual type arguments of each call, and pass-through calls, origin and release behave as for ordinary functions with the right type arguments.",
 ["programs","inputs","configurations"], "for every shape of type arguments, size of parameters, instantiation and build mode",
 "Tests instantiate a few functions with small types in one build mode; locating the shared implementation depends on the code the compiler emits for each wrapper.",
 ["mock_generics.go","mock.go","mock_condition.go","internal/monkey/inst/disasm_amd64.go","internal/monkey/inst/generic_extra.go","internal/monkey/inst/generic_extra_race.go"],
 [("search for the call of the shared implementation","internal/monkey/inst GetGenericJumpAddr"),("runtime helper calls ignored","internal/monkey/inst/generic_extra*.go"),("GenericInfo parameter","mock_generics.go, mock_condition.go")],
 [], ["calls of sibling instantiations, reported type arguments, event log"])

prop("C14", "GetMethod finds exactly the method or function field that is named",
 "For a value, pointer or interface value, GetMethod returns the function that a call of that method on the value runs - exported or unexported, with value or pointer receiver, promoted from embedded structs and interfaces at any depth (the method an embedded type declares taking precedence over one of the same name further out), with names of any length - and for a function-typed field the function it holds, so that calling the returned function with a receiver equals the method call and mocking it intercepts exactly that method. A name that does not exist panics, and nothing but the named method or field is ever returned. The older GetNestedMethod and GetPrivateMethod agree with it on exported methods.",
 ["programs","inputs"], "for every type, method set, embedding depth, method name and receiver form",
 "Tests look up a dozen hand-picked methods; the unexported lookup parses runtime type data, where positions, name lengths and counts matter.",
 ["utils.go","internal/unsafereflect/type.go","internal/unsafereflect/name_above_1_17.go"],
 [("embedded search","utils.go getNestedMethod"),("runtime method table","internal/unsafereflect/type.go"),("field function","utils.go getFieldMethod")],
 [], ["calling the returned function against the direct method call, mocking it"])

prop("C15", "Mocked calls are safe under garbage collection and stack growth",
 "Arguments, results, hooks, conditions, captured variables and the mock itself stay alive and intact as long as they are needed, whatever the garbage collector does and whenever goroutine stacks grow or shrink during mocked, passed-through or origin calls - also when the program keeps no reference to the mock - and values that are no longer referenced can be collected.",
 ["schedules","inputs"], "for every moment of collection, preemption and stack growth or shrinking during any mocked call",
 "Tests neither force collections nor deep stacks; a missing root only shows when a collection hits a small window.",
 ["mock.go","internal/monkey/patch.go","internal/monkey/fn/inject.go","internal/tool/stack.go","internal/tool/call.go"],
 [("hook kept reachable through the active mock","mock.go, convey.go"),("argument transport by reflection","internal/tool/call.go"),("no stack check in relocated code","internal/monkey/patch.go, internal/tool/stack.go")],
 [], ["content checks of pointer-rich arguments under GC stress with poisoned free memory, finalizers"])

prop("C16", "Concurrent calls of mocked functions are free of data races",
 "Any number of goroutines may call mocked functions at the same time, with conditions, hooks, sequences, filters and pass-through, and read the counters meanwhile, without a data race inside the library and with the same results as sequential calls; distinct mocks never share state between calls.",
 ["schedules"], "for every interleaving of concurrent calls",
 "The suite runs without the race detector and with almost no concurrency.",
 ["mock.go","mock_condition.go","mock_sequence.go"],
 [("atomic counters, sequence lock, immutable hook closures","mock.go, mock_sequence.go")],
 [], ["Go race detector reports","per-call results"])

prop("C17", "With stop-the-world patching, running goroutines are not disturbed",
 "In builds with stop-the-world patching, mocking and releasing functions while other goroutines run arbitrary other code - even in the same memory page as the target - neither crashes nor disturbs them, and calls of the target that are in progress finish in the original. A call starting after the mock is in force is intercepted on every goroutine, and one starting after its release reaches the original.",
 ["schedules"], "for every interleaving of patch and unpatch operations with running goroutines",
 "Tests are single-threaded and built without the stop-the-world tag.",
 ["internal/monkey/mem/write.go","internal/monkey/common/runtime_link/stw","internal/monkey/mem/write_linux_amd64.s"],
 [("stop the world around the write","internal/monkey/mem/write.go WriteWithSTW")],
 [], ["results of concurrent workers, crashes"])

prop("C18", "Any function long enough can be patched, whatever its code and address",
 "For every machine-code function whose first 12 bytes lie before its return, consist of position-independent instructions and are not jumped back to, patching makes calls reach the hook and the saved original behave exactly as before, for every instruction mix, alignment and address - including entries crossing page boundaries and hooks and targets at any distance - and unpatching restores its exact bytes. A function that returns within the first 12 bytes is rejected with a panic before anything is changed, unless the unsafe option is used, with which calls reach the hook.",
 ["inputs","programs"], "for every sequence of leading instructions and every address of the target",
 "Tests patch a few compiler-generated functions at whatever addresses the linker chose.",
 ["internal/monkey/patch.go","internal/monkey/inst/disasm_amd64.go","internal/monkey/inst/inst_amd64.go","internal/monkey/mem/write.go"],
 [("instruction boundary search","internal/monkey/inst Disassemble"),("absolute branches","internal/monkey/inst BranchTo/BranchInto"),("page-wise write","internal/monkey/mem/write.go")],
 [], ["results of generated machine-code functions before, while and after patching; bytes; protections"])

prop("C19", "A build without the required compiler flags is reported at startup, others never",
 "A program all of whose packages are built with inlining enabled, in which mocks would silently not take effect, prints a warning that names the required gcflags at startup on standard error and otherwise runs on; a program all of whose packages are built with inlining and optimization disabled prints nothing, and neither does one whose environment disables the check with MOCKEY_CHECK_GCFLAGS=false.",
 ["configurations"], "for every combination of compiler flags and environment",
 "Tests always run in one configuration.",
 ["internal/tool/check_gcflags.go","internal/tool/check_gcflags_amd64.go"],
 [("call instruction searched in own code","internal/tool/check_gcflags_amd64.go IsGCFlagsSet")],
 [], ["stderr and exit status of a small program built in each configuration"])

prop("C20", "Debug, race and stop-the-world modes behave exactly like the default mode",
 "The observable outcome of any program using the library - which hooks run with which arguments and results, panics, counters, variables - does not depend on MOCKEY_DEBUG, on the race detector build or on the stop-the-world build tag; debug mode only adds lines marked [MOCKEY] to standard output, and without it the library prints nothing.",
 ["configurations","histories"], "for every history of operations in every build mode and environment",
 "Tests run in one mode; the others compile different code and run different startup paths.",
 ["internal/tool/debug.go","internal/monkey/inst/generic_extra_race.go","internal/monkey/common/runtime_link/stw","internal/monkey/mem/write.go"],
 [("debug printing","internal/tool/debug.go"),("build tags","internal/monkey/common/runtime_link/stw, internal/monkey/inst/generic_extra_race.go")],
 [], ["event logs of the same seeded history run in every mode, compared"])

prop("C21", "Branch and disassembly code for 64-bit ARM is correct for every address",
 "The code written to a target on 64-bit ARM loads exactly the given 64-bit hook address into the closure context register and branches to the function it holds, the code after a relocated head branches exactly to the given address, and the implementation found for a generic function is exactly the destination of its one call that is not a runtime helper, for every address and every branch distance in either direction.",
 ["inputs"], "for every 64-bit address and every branch offset",
 "The one encoding test covers amd64 only; nothing of the ARM code runs on the test machine.",
 ["internal/monkey/inst/inst_arm64.go","internal/monkey/inst/disasm_arm64.go"],
 [("movz/movk/br encoding","internal/monkey/inst/inst_arm64.go"),("branch displacement","internal/monkey/inst/disasm_arm64.go calcAddr")],
 [], ["an ARM instruction interpreter run on the generated code"])

prop("C22", "Code is written safely on every supported platform",
 "On Linux and macOS, amd64 and arm64, the routine that writes code makes the page of the target writable, copies exactly the given bytes, restores the given protection, reports every failure of these steps, copies nothing into a page that is not writable and leaves the caller's stack and registers alone, and on arm64 the current goroutine is found; with the Windows sources mocks take effect, pass through and are released as on Linux under the rules of VirtualAlloc, VirtualFree and VirtualProtect.",
 ["inputs","faults","configurations"], "for every target, data, page size, protection and failing system call on every supported platform",
 "Tests run on one platform and no system call fails in them.",
 ["internal/monkey/mem/write_linux_amd64.s","internal/monkey/mem/write_linux_arm64.s","internal/monkey/mem/write_darwin_amd64.s","internal/monkey/mem/write_darwin_arm64.s","internal/monkey/mem/write_windows.go","internal/monkey/mem/prot/protect_windows.go","internal/monkey/common/page_alloc_windows.go","internal/tool/goroutine_arm64.s"],
 [("protect, copy, restore","internal/monkey/mem/write_*.s"),("padding against other code in the page","internal/monkey/mem/write_*.s NOP4096, NOP16384"),("VirtualProtect, VirtualAlloc","internal/monkey/mem/prot/protect_windows.go, internal/monkey/common/page_alloc_windows.go")],
 [], ["interpreters of the linked assembly with a model of pages and system calls","results of histories with the Windows sources over a stand-in for kernel32.dll"])

prop("C23", "A refused system call is reported and leaves mocks as they were",
 "When the system refuses memory for a mock or the change of a page's protection, mocking and releasing end in a panic that can be recovered, in every build mode, and the target behaves exactly as before the operation; a reconfiguration that fails leaves the mock active or released, with the old or the new configuration. Afterwards, when the system permits it again, the same and all other operations work as if nothing had failed.",
 ["faults","histories"], "for every operation and every system call it makes that can fail, in any history",
 "No system call fails in the tests; the panic unwinds through locks, scope bookkeeping and a stopped world.",
 ["internal/monkey/mem/write.go","internal/monkey/mem/write_linux.go","internal/monkey/patch.go","internal/monkey/fn/inject.go","internal/monkey/common/page.go","mock.go"],
 [("error of the write while the world is stopped","internal/monkey/mem/write.go WriteWithSTW"),("order of changes and bookkeeping","mock.go Patch / UnPatch, internal/monkey/patch.go")],
 [("isPatched","whether the mock is active","mock.go Mocker")], ["results of calls after each operation","machine code bytes at the end"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
