import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

CPU="parasol_cpu/src/proc/fhe_processor.rs"
CP="parasol_runtime/src/circuit_processor/mod.rs"
CONC="parasol_concurrency/src/lib.rs"
HS="cfg(spf_sim) import swaps that route atomics, channels, once-cells and mutexes through parasol_concurrency::sim, plus a rayon-core shim patched in by the harness"

p("C01","Out-of-order program execution equals in-order execution",
 "Running a program on the encrypted computer gives exactly the return value, memory contents and debug-handler observations that executing its instructions one at a time in program order would give, with encrypted values compared by what they decrypt to. This holds for every mix of plaintext and encrypted operands, every data, memory and branch dependency, every worker count, and every order in which worker threads start and finish. Running the same program again on the same processor gives the same answer.",
 ["programs","inputs","schedules","configurations"],
 "all valid programs over the instruction set, all plaintext/encrypted argument mixes, all interleavings of the dispatching thread with the pool's workers, all pool sizes",
 "Tests run a handful of straight-line programs under whatever timing the host gives; hazards (WAR/WAW/RAW through registers and memory, branches on late values, a retirement racing a dependent's registration) need one specific interleaving.",
 [CPU,"parasol_cpu/src/tomasulo/registers.rs","parasol_cpu/src/tomasulo/scoreboard.rs","parasol_cpu/src/proc/ops/","parasol_cpu/src/proc/mod.rs"],
 [("register renaming",'parasol_cpu/src/tomasulo/registers.rs'),("dependency scoreboard with lock-once retirement",CPU+' dispatch_instruction/retire'),("in-flight memory table",CPU+' try_append_memory_dependencies')],
 [("deps","unretired producers of an instruction","parasol_cpu/src/tomasulo/scoreboard.rs"),("inflight_memory_ops","last access per byte address","parasol_cpu/src/proc/mod.rs")],
 ["FheComputer::run_program*","Memory::try_load_type"],HS)

p("C02","Every faulting program ends with an error and leaves the computer usable",
 "A program that does something illegal (bad opcode, bad operands or widths, unmapped or misaligned access, encrypted pointer or branch condition) always returns an error in bounded time: it never hangs, never crashes the host and never returns a value. Afterwards no work of that program is still running, and the same computer and other computers run later programs with correct results.",
 ["programs","schedules","fault_sequences"],
 "all faulting instructions at all positions relative to in-flight encrypted work, all interleavings, all follow-up programs",
 "Fault tests put one faulting instruction in an otherwise idle machine; hangs and lost wakeups need the fault to land between particular dispatch, execution and retirement steps.",
 [CPU,"parasol_cpu/src/error.rs","parasol_cpu/src/proc/assembly.rs","parasol_cpu/src/proc/ops/"],
 [("fault cell makes later instructions no-ops",CPU+' exec_instruction'),("wait() drains in-flight instructions",CPU),("operand validation","parasol_cpu/src/proc/assembly.rs")],
 [("instructions_inflight","dispatched but not retired",CPU)],
 ["FheComputer::run_program*"],HS)

p("C03","Gas use is schedule-independent and the gas limit is always enforced",
 "The gas charged for a completed program is the sum of its executed instructions' prices and depends only on the program and its inputs, never on thread timing or worker count. With a gas limit, a program whose total exceeds the limit ends with the out-of-gas error, including programs that would otherwise loop forever, and a program whose total is within the limit never does.",
 ["programs","inputs","schedules"],
 "all programs, argument encryptions, limits around the exact total, and interleavings",
 "Gas depends on whether operands are encrypted, which is not known while their producer is still running; tests price single instructions with settled operands and never vary timing.",
 [CPU],[("compute_gas",CPU),("gas limit check",CPU+' dispatch_instruction/run_program_with_options')],None,
 ["FheComputer::run_program_with_options"],HS)

p("C04","Shared program memory behaves as one atomic byte store with disjoint blocks",
 "Concurrent allocation, mapping checks, typed reads and writes on one memory behave as if each byte operation happened alone at some instant between its start and end: a completed write is seen by every later read of those bytes until overwritten. Blocks handed out by allocation, the stack and the program image never overlap and are mapped over their whole extent. Accesses outside mapped ranges or beyond the address space fail with an error and change nothing outside the addressed bytes.",
 ["histories","schedules","inputs"],
 "all histories of concurrent clients over all addresses (page boundaries, end of address space), sizes and interleavings, with stack and heap exhaustion",
 "Tests use one thread and a few mid-page addresses.",
 ["parasol_cpu/src/memory/mod.rs"],
 [("page table behind a mutex","parasol_cpu/src/memory/mod.rs"),("bump allocator and stack pointer locks","parasol_cpu/src/memory/mod.rs")],None,
 ["Memory::try_allocate*","Memory::try_load_type*","Memory::try_write_type*","Memory::check_range_is_mapped"],HS)

p("C05","Encrypted circuits compute their dataflow function under every schedule",
 "Executing a circuit graph leaves in each output buffer a ciphertext that decrypts to the value obtained by evaluating the graph in dependency order, for every graph shape, operation mix and input. This holds whatever the number of worker threads and whatever order ready operations are started, interleaved and finished in.",
 ["inputs","schedules","configurations"],
 "all acyclic graphs over the operation set (fan-out, diamonds, deep chains, shared and constant inputs), all values, all interleavings and pool sizes",
 "Tests run a few fixed circuits; a task started before its last input is written, or dropped when its producer retires while it registers, shows only in rare interleavings.",
 [CP,"parasol_runtime/src/circuit_processor/task.rs","parasol_runtime/src/fhe_circuit.rs","parasol_runtime/src/crypto/evaluation.rs"],
 [("dependency counters and one-shot dependents lock",CP),("typed task validation","parasol_runtime/src/circuit_processor/task.rs")],
 [("num_deps","unfinished producers of a task","parasol_runtime/src/circuit_processor/task.rs")],
 ["CircuitProcessor::run_graph_blocking","CircuitProcessor::spawn_graph"],HS)

p("C06","A submitted circuit completes exactly once, last, with its error if any",
 "Every submitted circuit invokes its completion callback exactly once, after its last operation has finished and its outputs are visible to the callback, including empty circuits, circuits with rejected operations and circuits containing dependency cycles. If any operation failed the callback receives an error that one of the operations really produced, otherwise none. Once all circuits have completed, nothing of them is retained and the processor accepts new circuits.",
 ["schedules","inputs","histories","fault_sequences"],
 "all graphs including malformed ones, all sequences of submissions, all interleavings of completion with dispatch",
 "The completion count reaches zero early or never only when retirements overlap dispatch in a particular way; tests wait for one well-formed graph at a time.",
 [CP,"parasol_runtime/src/circuit_processor/completion_handler.rs","parasol_runtime/src/circuit_processor/runtime_error.rs"],
 [("outstanding-operation count","parasol_runtime/src/circuit_processor/completion_handler.rs"),("first error wins once-cell","parasol_runtime/src/circuit_processor/completion_handler.rs")],
 [("ops_remaining","operations (plus the submitter) not yet retired","parasol_runtime/src/circuit_processor/completion_handler.rs")],
 ["CompletionHandler callback","CircuitProcessor::spawn_graph"],HS)

p("C07","In-flight circuit work is bounded by the configured limit and never stalls",
 "A circuit processor never has more operations outstanding (handed to workers or waiting on producers) than its configured flow-control length, whatever is submitted. Submission blocks rather than failing when the limit is reached and always resumes once operations finish, so every submission terminates for every limit of at least one and any pool size, including a single worker, slow or stalled workers, circuits that fail, and several threads submitting through clones in turn.",
 ["schedules","configurations","histories"],
 "all limits from 1 up, all graph sizes around the limit, all interleavings, several concurrent submitters sharing one processor",
 "Tests use a limit far above the size of their graphs, so the limit is never reached.",
 [CP],[("token channel returned on retirement",CP)],
 [("tokens","free slots for operations",CP)],
 ["CircuitProcessor::new","CircuitProcessor::spawn_graph"],HS)

p("C08","Circuits and programs running side by side do not affect each other",
 "When several clients use one circuit processor, one thread pool or several computers sharing a pool at the same time, each gets exactly the results, errors and gas it would get running alone. A failing circuit or program of one client never fails, delays forever or alters another's.",
 ["schedules","histories","fault_sequences"],
 "all mixes of succeeding and failing circuits/programs from several clients, all interleavings",
 "Tests submit one job at a time.",
 [CP,CPU,"parasol_cpu/src/proc/mod.rs"],
 [("per-submission completion handler",CP),("per-run fault cell",CPU)],None,
 ["CircuitProcessor::spawn_graph","FheComputer::run_program*"],HS)

p("C09","Shared cells never hand out conflicting borrows",
 "The atomic reference cell never lets an exclusive borrow coexist with any other borrow, under any interleaving of borrow, mutable-borrow and release, including attempts that are refused by panicking and borrows dropped during unwinding. A refused attempt leaves the cell as it was, every write made under an exclusive borrow is visible to all later borrows, and once all borrows are released the cell can be exclusively borrowed again.",
 ["schedules","histories","fault_sequences"],
 "all histories of concurrent borrowers, refused attempts and unwinds, all interleavings, and all memory orderings the hardware may exploit",
 "Unit tests exercise one thread and stop at the first refused borrow; the state after a refusal, and two racing borrowers, are never looked at.",
 [CONC],[("atomic borrow counter",CONC+' AtomicRefCell')],
 [("state","0 exclusively borrowed, 1 free, n+1 n readers",CONC)],
 ["AtomicRefCell::borrow","AtomicRefCell::borrow_mut"],HS)

p("C10","The spinlock admits one holder at a time and never loses a release",
 "At most one thread holds the spinlock at any time, whether taken by blocking or by trying, and what one holder wrote is visible to the next. Trying succeeds only if it really obtained the lock and fails only while someone holds it; a lock deliberately kept is never obtained again by anyone; a lock released, including during unwinding, is eventually obtained by a waiting thread.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of lock, try-lock, release, keep-locked and unwinding holders, and all memory orderings the hardware may exploit",
 "A handful of threads incrementing a counter on one machine cannot exercise a lost exclusion or a missing acquire/release pairing.",
 [CONC],[("atomic flag swap/store",CONC+' Spinlock')],[("lock","held flag",CONC)],
 ["Spinlock::lock","Spinlock::try_lock","Spinlock::keep_locked"],HS)

p("C11","Parallel key generation and transforms give the same keys as serial ones",
 "Bootstrapping, keyswitching, scheme-switching and private-functional-keyswitching keys generated in parallel are valid for every work-splitting, stealing order and worker count: each decrypts, row by row, to exactly the key material a serial generation encrypts. Computations performed with them, including several at the same time on different threads, decrypt to the right messages.",
 ["schedules","configurations","inputs"],
 "all fork/join split trees and interleavings, nested parallelism, worker counts, keys and messages",
 "Tests generate keys under the host's default pool and only one split pattern per core count; two tasks writing one row or skipping one shows only under other splits.",
 ["sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs","sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs","sunscreen_tfhe/src/ops/bootstrapping/circuit_bootstrapping.rs","sunscreen_tfhe/src/ops/bootstrapping/scheme_switch.rs","sunscreen_tfhe/src/high_level/keygen.rs","parasol_runtime/src/crypto/keys.rs"],
 [("disjoint parallel row iterators","sunscreen_tfhe/src/macros.rs, sunscreen_tfhe/src/dst.rs"),("triangular pair iterator","sunscreen_tfhe/src/iteration/")],None,
 ["high_level::keygen","ComputeKeyNonFft::generate","ops::bootstrapping","ops::keyswitch"],
 "rayon-core and getrandom replaced by the harness; no hook in the crate")

p("C12","Temporary buffers never alias and never leak earlier contents into results",
 "Scratch buffers live at the same time on one thread never overlap in memory, for any order of nesting and release, any element type, size and alignment, and after any unwinding; buffers are correctly sized and aligned. No homomorphic operation's result depends on what an earlier computation left in the reused buffers, so the same operation on the same inputs gives bit-identical results on a fresh thread and on a thread with arbitrary previous work.",
 ["histories","schedules","fault_sequences"],
 "all histories of allocations, releases, panics and previous operations on the worker thread that happens to run the operation",
 "Tests run each operation once on a fresh thread whose buffers happen to be new; stale contents need a specific earlier operation on the same worker.",
 ["sunscreen_tfhe/src/scratch.rs","sunscreen_tfhe/src/ops/","sunscreen_tfhe/src/math/fft/negacyclic.rs"],
 [("thread-local stack of reusable buffers","sunscreen_tfhe/src/scratch.rs"),("explicit clearing before accumulation","sunscreen_tfhe/src/ops/")],
 [("scratch pool","per-thread reusable bytes","sunscreen_tfhe/src/scratch.rs")],
 ["ops::*","high_level::*"],"cfg(spf_sim) poisoning of freshly handed-out scratch bytes and public access to the allocator")

p("C13","Parallel iteration visits every element exactly once, in order",
 "Iterating the rows, polynomials and ciphertext entries of a packed structure, or all pairs of a triangular index set, in parallel yields exactly the elements serial iteration yields, each once and at its own position, for every length, split pattern and worker count. Mutable parallel iteration hands out non-overlapping elements.",
 ["inputs","schedules","configurations"],
 "all lengths, element sizes, nested split points from either end and interleavings",
 "Tests use the lengths of a few parameter sets with the splits the local scheduler happens to choose.",
 ["sunscreen_tfhe/src/dst.rs","sunscreen_tfhe/src/iteration/triangular_pairs.rs"],
 [("Producer::split_at","sunscreen_tfhe/src/dst.rs"),("indexed split of triangular pairs","sunscreen_tfhe/src/iteration/triangular_pairs.rs")],None,
 ["iteration::*","entities rows_par/rows_par_mut"],"rayon-core replaced by the harness; cfg(spf_sim) public access where iterators are crate-private")

p("C14","Finished work is released: memory use does not grow with work done",
 "Once a circuit or program has completed, failed or run out of gas, the library keeps nothing of it: the caller's buffers, memories and callbacks are no longer referenced and every task and intermediate ciphertext is freed. Repeating work any number of times, on any workers, leaves the amount of live memory where it was; dropping a processor or computer frees what it owned, and a thread that ends returns its temporary buffers.",
 ["histories","schedules","fault_sequences"],
 "all histories of succeeding, failing, cyclic and gas-limited work, all interleavings, worker and client threads that end at any point",
 "Tests run one job per process and never look at what is still alive afterwards.",
 [CP,"parasol_runtime/src/circuit_processor/task.rs",CPU,"parasol_cpu/src/tomasulo/","sunscreen_tfhe/src/scratch.rs"],
 [("task graph freed by reference counts",CP),("per-thread scratch stack","sunscreen_tfhe/src/scratch.rs")],None,
 ["CircuitProcessor::spawn_graph","FheComputer::run_program*","scratch::allocate_scratch"],HS)

p("C15","Decoding ciphertexts, keys and pads from bytes is total, bounded and faithful",
 "Every ciphertext, key and one-time pad that is serialised and read back is identical and decrypts the same. Reading bytes that were truncated, extended, torn or bit-flipped in storage or transit never crashes, never consumes memory beyond the size of the expected object, and a value accepted after a validity check can be used without crashing; a strict prefix is always rejected.",
 ["inputs","fault_sequences"],
 "all objects of all parameter sets, all truncation points, all corruptions of the byte stream",
 "Tests round-trip intact buffers only.",
 ["parasol_runtime/src/safe_bincode.rs","parasol_runtime/src/crypto/keys.rs","parasol_runtime/src/crypto/ciphertext.rs","parasol_runtime/src/crypto/recryption.rs"],
 [("size-limited deserialisation","parasol_runtime/src/safe_bincode.rs"),("check_is_valid","parasol_runtime/src/crypto/")],None,
 ["safe_bincode::deserialize","CheckIsValid"],None)

p("C16","A remote private computation decrypts to the plain answer despite faults",
 "When a client encrypts inputs, ships keys, inputs and program to a server, and the server computes and returns ciphertexts, the client decrypts exactly what the program computes on the plain inputs, even if messages are lost, duplicated, delayed or reordered and the server crashes and restarts with only its stored bytes. Repeating a computation from the stored bytes gives the same decrypted answer, and once faults stop every request completes.",
 ["inputs","fault_sequences","crash_points","schedules"],
 "all inputs, keys, request mixes, message fault sequences and crash points",
 "Tests keep keys and ciphertexts in one process and never rebuild a server from serialised state.",
 ["parasol_runtime/src/crypto/","parasol_runtime/src/safe_bincode.rs","parasol_cpu/src/proc/args.rs",CPU,"sunscreen_tfhe/src/high_level/"],
 [("serialisable keys and ciphertexts","parasol_runtime/src/crypto/"),("stateless evaluation","parasol_runtime/src/crypto/evaluation.rs")],None,
 ["ComputeKey, Encryption, UInt/Int encrypt/decrypt","FheComputer"],HS)

p("C17","One-time-pad recryption returns the plaintext only to the pad's holder",
 "A result recrypted under a public one-time pad decrypts with the matching secret pad to the plaintext of the original ciphertext, for every width, value and pad and after both were stored and reloaded. A stale, duplicated or swapped pad is either rejected or yields a value unrelated to the plaintext, and the recrypted message alone together with the public pad differs from the plaintext by a mask that is fresh for every pad.",
 ["inputs","histories","fault_sequences"],
 "all values, widths and pads; all mixes of several outstanding pads, lost or duplicated responses and restarts",
 "Tests recrypt one value with one pad held in memory.",
 ["parasol_runtime/src/crypto/recryption.rs","parasol_runtime/src/fluent/recrypted_int.rs"],
 [("pad generation, recrypt, decrypt","parasol_runtime/src/crypto/recryption.rs")],None,
 ["generate_one_time_pad","recrypt","decrypt"],None)

p("C18","Secret, mask and noise draws are fresh; entropy failure never yields keys",
 "Every key, encryption mask, noise term and pad is derived from fresh entropy: no two ciphertexts, key rows or keys produced in one process, on any mix of threads, share their random part, and two processes started with different entropy share none. If the system's entropy source fails, the operation stops instead of producing a key or ciphertext from predictable randomness, and decryption is correct for every entropy stream.",
 ["fault_sequences","schedules","inputs"],
 "all entropy streams, thread placements of draws, and failures or short reads of the entropy source",
 "Tests never control or fail the entropy source and never compare masks across threads.",
 ["sunscreen_tfhe/src/rand.rs","sunscreen_tfhe/src/ops/encryption/","parasol_runtime/src/crypto/"],
 [("per-thread cryptographic generator","sunscreen_tfhe/src/rand.rs")],None,
 ["keygen and encryption functions"],"getrandom replaced by the harness")

p("C19","Expressions on encrypted integers equal ordinary integer arithmetic",
 "Building an expression over encrypted and plain integers with the circuit-builder API and running it gives ciphertexts that decrypt to the wrapped two's-complement result of the same expression on plain integers, for all supported widths and signedness, static, dynamic and packed forms. The result does not depend on scheduling or on other expressions run at the same time.",
 ["inputs","schedules","programs"],
 "all expressions over the operator set, all widths, all operand values, all interleavings",
 "Tests check one operator at a time on a few values of a few widths.",
 ["parasol_runtime/src/fluent/","parasol_runtime/src/circuits/","mux_circuits/src/"],
 [("multiplexer circuits inserted into graphs","parasol_runtime/src/fhe_circuit.rs"),("type-state conversions","parasol_runtime/src/fluent/mod.rs")],None,
 ["FheCircuitCtx","UInt/Int graph nodes"],HS)

p("C20","Damaged program images are rejected, intact ones load exactly",
 "Loading a program image either fails with an error or produces a memory whose symbols, code and data are exactly those of the image, with code and data mapped at their addresses. An image truncated, torn or bit-flipped in storage never crashes the loader, never makes it map or allocate beyond the address space, and never hangs it.",
 ["inputs","fault_sequences"],
 "all images, all truncation points and corruptions",
 "Tests load a few intact images.",
 ["parasol_cpu/src/memory/mod.rs","parasol_cpu/src/runner.rs"],
 [("ELF segment loading and ABI version check","parasol_cpu/src/memory/mod.rs")],None,
 ["Memory::new_from_elf","Memory::get_function_entry"],None)

p("C21","Circuit optimisation preserves the function computed",
 "Optimising, simplifying or merging multiplexer circuits, and building them from decision diagrams, never changes the boolean function of any output.",
 ["inputs","programs"],"all circuits and input assignments",
 "Tests check a few circuits.",
 ["mux_circuits/src/opt.rs","mux_circuits/src/lib.rs"],[("graph rewriting","mux_circuits/src/opt.rs")])
p("C22","Finite-field and polynomial arithmetic obeys its algebraic laws",
 "Modular rings, polynomials and security estimates in the mathematics library satisfy their algebraic definitions for all operands.",
 ["inputs"],"all operands and moduli","Tests sample operands.",
 ["sunscreen_math/src/","sunscreen_math_macros/src/"],[("ring implementations","sunscreen_math/src/ring/")])
p("C23","Parameter sets meet the advertised security and failure probability",
 "Each published parameter set gives at least the advertised bits of security and its bootstrapping error probability is below the advertised bound.",
 ["inputs","configurations"],"all published parameter sets","Statistical and cryptanalytic claim; tests bootstrap a few times.",
 ["sunscreen_tfhe/src/params.rs","parasol_runtime/src/params.rs"],[("hard-coded parameters","parasol_runtime/src/params.rs")])
p("C24","Instruction encoding round-trips and derive macros generate what they describe",
 "Every instruction encodes to one word that decodes to the same instruction, and no two instructions share an encoding.",
 ["inputs"],"all instructions and operand fields","Tests sample.",
 ["parasol_cpu_macros/src/","parasol_cpu/src/proc/assembly.rs"],[("derive macros","parasol_cpu_macros/src/lib.rs")])
p("C25","Benchmark host metadata is reported faithfully",
 "The benchmark helper reports the host's CPU, memory and cloud-instance identity and falls back cleanly when a metadata service is absent.",
 ["configurations","fault_sequences"],"all hosts and metadata-service failures","Tests run on one host.",
 ["benchmark_system_info/src/"],[("metadata queries","benchmark_system_info/src/lib.rs")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
