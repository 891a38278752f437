#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for titles/statements)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,title)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

CORE=["src/lib.rs","src/utils.rs","src/imp/core_atomic.rs","src/imp/x86.rs","src/imp/atomic128/x86_64.rs","src/imp/atomic128/aarch64.rs","src/imp/atomic128/macros.rs","src/imp/fallback/mod.rs","src/imp/fallback/outline_atomics.rs"]
prop("C01","Integer operations compute exactly the documented result",
 "For every integer atomic type, every operation (load, store, swap, both compare-exchanges, every fetch_* operation and its value-less variant) returns exactly the value it is documented to return and leaves exactly the documented new value in the object, for every old value and every argument. This includes wrap-around in add/sub/neg, signed versus unsigned max/min, both halves of 64/128-bit values, and the success or failure (Ok or Err with the current value) of compare-exchange.",
 ["inputs","configurations"],"all old values and all arguments of full width, all accepted memory orderings, each supported build configuration and each run-time selected implementation",
 "The tests use a handful of hand-picked constants and a few thousand random pairs per type; carry/borrow between halves, sign boundaries and rarely selected orderings have 2^256 input combinations.",
 CORE,[("operation forwarding","src/lib.rs atomic_int!"),("word-size implementations","src/imp/core_atomic.rs"),("x86 asm not/neg/bit ops","src/imp/x86.rs"),("128-bit x86_64","src/imp/atomic128/x86_64.rs"),("128-bit AArch64","src/imp/atomic128/aarch64.rs"),("lock-based fallback","src/imp/fallback/mod.rs")],
 observe=["returned value","object contents after the operation"])
prop("C02","Lock-free operations take effect at a single atomic access",
 "When an object's operations are lock-free, each operation takes effect at one single indivisible access to the whole object, even if other threads change the object arbitrarily between any two instructions of the operation: a value returned or used as input was the complete contents of the object at that access, and the new value is installed by that same access. A failed compare-exchange leaves the object's contents as they were, a strong compare-exchange never fails when the expected value is found, and no operation ever writes anything else.",
 ["schedules","inputs"],"every interference by other threads between any two instructions (arbitrary values at every shared read, arbitrary failures of conditional stores) up to the stated retry bound; all values",
 "Stress tests sample a few schedules with a few values; a torn or lost update needs a write by another thread in a window of a few instructions.",
 ["src/imp/atomic128/x86_64.rs","src/imp/atomic128/aarch64.rs","src/imp/core_atomic.rs","src/imp/x86.rs","src/imp/float/int.rs","src/lib.rs","src/utils.rs"],
 [("cmpxchg16b loops","src/imp/atomic128/x86_64.rs"),("ldxp/stxp and casp loops, ldp/stp with LSE2","src/imp/atomic128/aarch64.rs"),("compare-exchange retry loops","src/imp/core_atomic.rs")],
 observe=["memory accesses of an operation interleaved with arbitrary writes"])
prop("C03","Lock-based fallback operations are atomic with respect to each other",
 "When an object wider than the native width is implemented with locks, concurrent operations on it still behave as if executed one at a time: a load never returns a mixture of two values, no read-modify-write is lost, and this holds under the C11/Rust memory model, not only under sequential consistency. Every write to the object happens while its lock is held, the same object always uses the same lock, an operation that writes leaves a lock version observably different from before, and each lock is released exactly once on every way out of the operation.",
 ["schedules","inputs"],"all interleavings and weak-memory executions of small concurrent clients (up to three threads, bounded operations each), all values, all addresses of the object",
 "The fallback's stress tests run on x86 hardware, where most missing barriers cannot show, and sample few schedules; optimistic reads fail only when a writer hits a window of two loads.",
 ["src/imp/fallback/mod.rs","src/imp/fallback/seq_lock.rs","src/imp/fallback/seq_lock_wide.rs","src/imp/fallback/seq_lock_common.rs","src/imp/fallback/utils.rs","src/imp/fallback/outline_atomics.rs"],
 [("optimistic read and validation","src/imp/fallback/seq_lock_common.rs"),("lock acquisition and release","src/imp/fallback/seq_lock.rs, seq_lock_wide.rs"),("operations under the lock","src/imp/fallback/mod.rs")],
 state=[("lock state","version stamp, with a reserved value meaning locked")])
prop("C04","Acquire and release orderings establish happens-before",
 "A store or read-modify-write requested with release (or stronger) ordering whose value is read by a load or read-modify-write requested with acquire (or stronger) ordering makes everything before the former visible to everything after the latter, for every pair of operations and every accepted ordering argument, on the memory model of the compiler and of the target CPU. This includes the failure ordering of compare-exchange, failure orderings stronger than the success ordering, fetch_update's two orderings, and stand-alone fences.",
 ["schedules","configurations"],"all executions allowed by the memory model of message-passing-shaped clients, for each operation kind and each ordering argument",
 "Tests run on x86 or emulated on x86, which never reorders the way the orderings are meant to forbid, and no test checks the order of other memory accesses around an operation exhaustively.",
 ["src/imp/core_atomic.rs","src/utils.rs","src/imp/atomic128/aarch64.rs","src/imp/atomic128/x86_64.rs","src/imp/x86.rs","src/imp/fallback/mod.rs","src/imp/float/int.rs","src/lib.rs"],
 [("ordering selection in assembly","src/imp/atomic128/aarch64.rs"),("ordering forwarding","src/imp/core_atomic.rs, src/lib.rs"),("failure-ordering upgrade","src/utils.rs upgrade_success_ordering")])
prop("C05","SeqCst operations and fences are sequentially consistent",
 "Operations and fences requested with SeqCst ordering behave as a single total order consistent with each thread's program order: in particular a SeqCst store followed by a SeqCst load of another object is never reordered, and independent readers agree on the order of independent SeqCst writes. A SeqCst fence between relaxed accesses has the same effect, also when the objects involved use different implementations (native, wide, lock-based).",
 ["schedules","configurations"],"all executions allowed by the memory model of store-buffering, independent-reads and related clients with up to four threads, for each operation kind and mixture of implementations",
 "Store buffering is a hardware effect that depends on timing; no test in the suite looks for it.",
 ["src/imp/x86.rs","src/imp/atomic128/x86_64.rs","src/imp/atomic128/aarch64.rs","src/imp/fallback/mod.rs","src/imp/core_atomic.rs","src/lib.rs"],
 [("SeqCst fence","src/imp/x86.rs fence"),("SeqCst 128-bit load/store","src/imp/atomic128"),("fences around fallback operations","src/imp/fallback/mod.rs ScFenceGuard")])
prop("C06","Invalid orderings panic before touching memory; valid ones never panic",
 "A load with Release or AcqRel, a store with Acquire or AcqRel, a compare-exchange or fetch_update with a Release or AcqRel failure/fetch ordering, and a fence with Relaxed panic, and they do so before the object (or any lock) has been read or written. Every other combination of orderings is accepted by every operation, including failure orderings stronger than the success ordering, and never panics for any value.",
 ["inputs","configurations"],"all five orderings (25 pairs for two-ordering operations), all values, every type, operation and implementation",
 "The tests check the panic of some types and orderings only, and never that memory is untouched or that no other value/ordering combination panics.",
 ["src/utils.rs","src/lib.rs","src/imp/core_atomic.rs","src/imp/atomic128/macros.rs","src/imp/atomic128/x86_64.rs","src/imp/fallback/mod.rs","src/imp/x86.rs"],
 [("ordering assertions","src/utils.rs assert_load_ordering, assert_store_ordering, assert_compare_exchange_ordering")])
prop("C07","Operations touch only the object; layout equals the value's",
 "Every atomic type has exactly the size of its value and alignment equal to that size, and construction, exclusive access, by-value extraction and raw-pointer views all denote the same value bit for bit. No operation reads or writes any byte outside the object in a way another party could observe (neighbouring bytes keep their contents even if concurrently modified), and apart from the object only the crate's own private state is touched.",
 ["inputs","configurations"],"all values, all alignments the type allows, every operation and implementation",
 "Tests never surround the object with watched bytes for all operations and implementations and cannot show the absence of an access.",
 ["src/lib.rs","src/imp/core_atomic.rs","src/imp/atomic128/macros.rs","src/imp/fallback/mod.rs","src/utils.rs"],
 [("layout assertions","src/utils.rs static_assert_layout"),("pointer views","src/lib.rs from_ptr, as_ptr, get_mut, into_inner")])
prop("C08","Run-time selection is consistent and matches is_lock_free",
 "Whatever the CPU reports, all operations on a given object agree on one mechanism (native instructions or lock), also when several threads make the selection at the same time and even if detection gave them different answers, so native and lock-based accesses to one object never mix. No instruction that the detected CPU lacks is ever executed, is_lock_free returns true exactly when the operations of that object never take a lock, and is_always_lock_free being true implies is_lock_free is true on every CPU.",
 ["configurations","schedules"],"every answer the CPU/OS may give to feature queries, every interleaving of first uses, every 64/128-bit operation and ordering",
 "Tests run on one CPU model where every feature query has one fixed answer and each function is selected once.",
 ["src/utils.rs","src/imp/detect/common.rs","src/imp/atomic128/x86_64.rs","src/imp/atomic128/aarch64.rs","src/imp/fallback/outline_atomics.rs","src/imp/mod.rs"],
 [("function pointer dispatch","src/utils.rs ifunc!"),("cached detection","src/imp/detect/common.rs detect"),("selection per operation","src/imp/atomic128/x86_64.rs, aarch64.rs")])
prop("C09","CPU feature detection reports exactly what hardware and OS announce",
 "A CPU feature is considered present if and only if the architectural query (instruction or operating-system interface) announces it, and features that also need operating-system support only if that is announced as well. Detection needs no more than the documented queries, gives the same answer on every later call, and never reports a feature because of an unrelated bit.",
 ["configurations","inputs"],"all 32/64-bit values each feature query can return, and every order of racing first calls",
 "The tests compare with the standard library's detection on the one CPU they run on.",
 ["src/imp/detect/common.rs","src/imp/detect/x86_64.rs","src/imp/detect/auxv.rs","src/imp/atomic128/x86_64.rs"],
 [("cpuid","src/imp/detect/x86_64.rs"),("hwcap","src/imp/detect/auxv.rs"),("flag word","src/imp/detect/common.rs")])
prop("C10","Atomic floats: bit-exact storage and IEEE results",
 "Atomic floats store, load, swap and compare-exchange bit patterns exactly (compare-exchange compares bits, so -0.0 and 0.0 differ and NaNs compare by payload), and convert to their integer view without change. fetch_add, fetch_sub, fetch_max and fetch_min install the IEEE result of the old value and the argument (the non-NaN operand for max/min when one is NaN), fetch_neg only flips and fetch_abs only clears the sign bit for every bit pattern including NaNs, and each returns the previous value bit-exactly.",
 ["inputs","configurations"],"all bit patterns of the old value and the argument (infinities, NaNs, subnormals, signed zeros), all orderings, f16/f32/f64/f128",
 "Tests use a few ordinary values and cannot cover all NaN payloads, signed zeros and subnormals.",
 ["src/lib.rs","src/imp/float/int.rs","src/imp/float/mod.rs"],
 [("float operations on integer bits","src/imp/float/int.rs"),("public API","src/lib.rs atomic_int!(float, ...)")])
prop("C11","Bit operations affect exactly bit (n mod width) and report its old value",
 "bit_set, bit_clear and bit_toggle on integers and pointers return whether the addressed bit was set before and change only that bit in the documented way, for every 32-bit bit index, where indices beyond the width wrap modulo the width. This holds at a single atomic access with the requested ordering, like any other read-modify-write.",
 ["inputs","configurations","schedules"],"all 2^32 bit indices, all old values, all types, orderings and implementations, arbitrary interference",
 "Tests try a few indices near the width on a few values.",
 ["src/utils.rs","src/imp/x86.rs","src/imp/core_atomic.rs","src/lib.rs","src/imp/atomic128/macros.rs"],
 [("default bit operations","src/utils.rs impl_default_bit_opts"),("bts/btr/btc","src/imp/x86.rs")])
prop("C12","fetch_update installs exactly the closure's answer for the current value",
 "fetch_update calls the closure only with values that were the complete contents of the object, installs Some(new) only if the object still held the value the closure last saw and then returns Ok of that value, and on None returns Err of the value the closure last saw without writing. It retries when and only when the object changed (or the conditional store failed), whatever the closure computes and however other threads interfere.",
 ["schedules","inputs","histories"],"every closure (its answers are arbitrary per call), every interference by other threads, all values and ordering pairs, up to the retry bound",
 "Tests use one or two pure closures without contention.",
 ["src/lib.rs","src/imp/core_atomic.rs"],[("retry loop","src/lib.rs fetch_update"),("weak compare-exchange","src/imp/core_atomic.rs")])
prop("C13","AtomicBool only ever holds 0 or 1 and computes boolean logic",
 "Whatever sequence of operations is applied to an atomic boolean, the underlying byte is always 0 or 1, and load, store, swap, compare-exchange, and/nand/or/xor/not and their value-less variants return the previous boolean and install the documented one. Each takes effect at a single atomic access.",
 ["inputs","histories","schedules"],"both values of object and arguments, all orderings, all implementations, arbitrary interference that itself keeps the byte 0 or 1; by induction over any history",
 "The truth tables are tested sequentially only, on one path per target, and never under interference.",
 ["src/lib.rs","src/imp/core_atomic.rs"],[("boolean operations on a byte","src/lib.rs AtomicBool")])
prop("C14","AtomicPtr arithmetic wraps and scales exactly",
 "Pointer operations return the previous pointer and install the documented one for every address: byte-wise add/sub and and/or/xor work on the whole address with wrap-around, and element-wise add/sub move by the count times the element size (with wrap-around, also for zero-sized and odd-sized elements). Each takes effect at a single atomic access.",
 ["inputs","schedules","configurations"],"all addresses and counts, element sizes including 0, 1 and non-powers of two, all orderings, arbitrary interference",
 "Tests use small in-bounds offsets and one or two element types.",
 ["src/lib.rs","src/imp/core_atomic.rs","src/utils.rs"],[("pointer arithmetic","src/lib.rs fetch_ptr_add, fetch_ptr_sub"),("pointer RMW","src/imp/core_atomic.rs AtomicPtr")])
prop("C15","Inline assembly honours what it tells the compiler",
 "Every inline assembly block reads only its declared inputs, writes only its declared outputs and clobbers, restores every register reserved by the compiler, leaves the stack pointer and (where promised) the condition flags as found, and computes the same result under every register allocation its operand constraints permit. Blocks that access memory are never declared as having no side effects on memory.",
 ["inputs","configurations"],"all operand values and all register allocations permitted by the constraints (including outputs sharing registers with inputs), every block of every encoded configuration",
 "Tests exercise only the allocation the current compiler happens to choose in the current call sites.",
 ["src/imp/atomic128/x86_64.rs","src/imp/atomic128/aarch64.rs","src/imp/x86.rs","src/imp/detect/x86_64.rs","src/imp/riscv.rs","src/imp/atomic128/riscv64.rs","src/imp/atomic128/powerpc64.rs","src/imp/atomic128/s390x.rs"],
 [("assembly blocks","src/imp")])
prop("C16","Interrupt-disabling implementations cover the access and restore the state",
 "In configurations that make operations atomic by disabling interrupts, every access of a read-modify-write to the object happens while interrupts are disabled, so an interrupt handler never observes or causes a partial operation. When the operation returns, the interrupt-enable state is exactly what it was before, whether it was enabled or disabled, and no other processor state bit is changed.",
 ["schedules","inputs","configurations"],"every initial processor-status value, every interrupt point, all values, each supported architecture's implementation",
 "These targets are bare-metal; none of the configurations tested here runs them and tests cannot inject an interrupt at every instruction.",
 ["src/imp/interrupt/mod.rs","src/imp/interrupt/riscv.rs","src/imp/interrupt/armv6m.rs","src/imp/interrupt/armv4t.rs","src/imp/interrupt/avr.rs","src/imp/interrupt/msp430.rs","src/imp/fallback/mod.rs"],
 [("critical section","src/imp/interrupt/mod.rs"),("disable/restore","src/imp/interrupt/*.rs")])
prop("C17","Operations finish without interference and never leave a lock held",
 "Started from any state in which no other thread is inside an operation, every operation completes in a small bounded number of steps without waiting, whatever the object's value and the lock's version counter. It never returns (or panics) with a lock still held, and the next operation on the same object by any thread can proceed.",
 ["inputs","histories"],"all object values and all lock version counters (including those about to wrap), all operations and implementations",
 "Version wrap-around after 2^62 operations or a retry loop that never converges for one special value is out of reach of testing.",
 ["src/imp/fallback/mod.rs","src/imp/fallback/seq_lock.rs","src/imp/fallback/seq_lock_wide.rs","src/imp/fallback/seq_lock_common.rs","src/imp/core_atomic.rs","src/imp/atomic128/x86_64.rs"],
 [("lock release","src/imp/fallback/seq_lock_common.rs"),("retry loops","src/imp/core_atomic.rs, src/imp/atomic128")])
prop("C18","Operations on other architectures compute the documented results atomically",
 "On the supported architectures outside the tested ones (RISC-V, powerpc64, s390x, Arm including pre-v6 Linux and bare-metal, MSP430, AVR), integer, boolean and pointer operations return and install the documented values and take effect at a single atomic access of the object, including the sub-word operations built from wider atomic instructions, which never disturb neighbouring bytes. Requested orderings are respected by the instructions and fences used.",
 ["inputs","schedules","configurations"],"all values, sub-word positions and orderings, arbitrary interference, for each encoded target configuration",
 "The existing tests do not run on these targets here at all.",
 ["src/imp/riscv.rs","src/imp/atomic128/riscv64.rs","src/imp/atomic64/riscv32.rs","src/imp/atomic128/powerpc64.rs","src/imp/atomic128/s390x.rs","src/imp/arm_linux.rs","src/imp/atomic64/arm_linux.rs","src/imp/msp430.rs","src/imp/avr.rs"],
 [("RISC-V","src/imp/riscv.rs, src/imp/atomic128/riscv64.rs, src/imp/atomic64/riscv32.rs"),("powerpc64","src/imp/atomic128/powerpc64.rs"),("s390x","src/imp/atomic128/s390x.rs"),("Arm","src/imp/arm_linux.rs, src/imp/atomic64/arm_linux.rs")])
prop("C19","Serialization and formatting show one atomically read current value",
 "Serializing or debug-formatting an atomic yields exactly what the plain value read from it by one atomic load would yield, and deserializing a value yields an atomic holding exactly that value. Errors of the serializer or deserializer are passed through unchanged.",
 ["inputs","schedules"],"all values, every serializer/deserializer answer, interference at any point, every type that supports them",
 "Tests format and round-trip one or two values per type.",
 ["src/utils.rs","src/lib.rs"],[("Debug and serde implementations","src/utils.rs impl_debug_and_serde")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
