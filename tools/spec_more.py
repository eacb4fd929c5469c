prop("C17", "Transforms and roots of unity match their definition",
     "For every field and every power-of-two size up to the declared one, the transform equals the evaluation of the input polynomial at the powers of the root of unity that the smallest quadratic non-residue yields, its inverse undoes it exactly, and the published roots are those powers. The answer does not depend on the declared maximum size nor on the number of threads. A declared size for which the field has no root of unity is rejected with an exception and every other one is accepted.",
     ["inputs", "configurations", "schedules"], "every field, declared size, transform size and input vector, with any number of threads", NOTEST + "; sizes 1 and 2, sizes that are not powers of two, more threads than work and fields of small two-adicity are special cases.",
     ["c/fft.cpp", "c/fft.hpp", "c/misc.hpp"], [("root table", "c/fft.cpp FFT::FFT"), ("butterflies and reversal", "c/fft.cpp fft, reversePermutation, ifft")],
     technique="runtime monitor comparing with the definition (GMP), under ASan/UBSan, several thread counts")
prop("C18", "The thread pool runs every piece exactly once and always terminates",
     "A parallel loop over a range runs every index exactly once, in pieces lying inside the range, each with a different worker number below the pool's thread count; a parallel block runs once per worker. No piece runs after the call has returned and the caller sees everything the pieces wrote. Under every schedule each call returns, an empty range included, and destroying the pool ends all its threads without waiting forever.",
     ["schedules", "inputs"], "every interleaving of the callers and the workers, every range and thread count", NOTEST + "; a lost wakeup needs one particular preemption between a test and a wait.",
     ["c/misc.hpp", "c/misc.cpp"], [("task hand-off and wakeups", "c/misc.hpp ThreadWorker"), ("range splitting", "c/misc.hpp parallelFor, parallelBlock")],
     state=[("pending task", "the one task a worker holds until it has run it", "c/misc.hpp ThreadWorker")],
     technique="controlled scheduler over the pool's mutexes and condition variables with exactly-once, ordering and termination monitors, plus ThreadSanitizer and ASan stress")
prop("C19", "Independent computations may run at the same time",
     "Field, curve, multiexponentiation and transform computations on separate results may run in several client threads at once, also sharing the default thread pool, one transform object and read-only operands, and each gives exactly the answer it gives alone. None of the library's parallel algorithms contains a data race, whatever the number of threads.",
     ["schedules", "histories"], "every schedule of any number of client threads and pool workers", NOTEST + ", and no test runs two threads at all.",
     ["c/misc.hpp", "c/fft.cpp", "c/msm.cpp", "c/multiexp.cpp", "src/fr.cpp.ejs"], [("shared default pool", "c/misc.hpp defaultThreadPool"), ("parallel regions", "c/multiexp.cpp, c/msm.cpp, c/fft.cpp"), ("static initialisation", "src/fr.cpp.ejs")],
     technique="ThreadSanitizer (with an instrumented OpenMP runtime of our own), controlled scheduler, comparison with sequential answers")
prop("C20", "Splitting a nested list is exact for every text",
     "Splitting a text with balanced parentheses ignores white space and any parentheses enclosing the whole, and yields exactly the parts between its top-level commas, each freed of the parentheses that enclose it whole; a text without a top-level comma yields itself as the only part. Every text, however deep, long or unbalanced, is answered or refused with an exception, without running forever or touching foreign memory. A structured element given with the wrong number of components is never accepted.",
     ["inputs"], "every text over parentheses, commas, white space and other characters", "The six tests split six texts; parentheses that look as if they matched, extra levels and single parts need particular shapes.",
     ["c/splitparstr.cpp", "c/f2field.cpp"], [("matching of enclosing parentheses", "c/splitparstr.cpp removePars"), ("recursion on one part", "c/splitparstr.cpp splitParStr"), ("component count", "c/f2field.cpp fromString")],
     technique="runtime differential monitor against a splitter written from the rules, exhaustive short texts, under ASan/UBSan")
prop("C21", "Binary containers read back exactly and damaged ones are refused",
     "Opening a well-formed container, from a file or from memory, makes each section's size and bytes available exactly as written, repeated sections in their order; sequential reads yield successive little-endian numbers and byte runs, and ending a section reports whether it was read exactly. A wrong type, a version that is too new, an absent section, a second section started before the first ended, a truncated or inconsistent container and reads beyond the data are each refused with a standard exception. Nothing outside the data is touched, and a refusal leaves neither memory nor file descriptors behind.",
     ["inputs"], "every byte string as container, every section layout, every sequence of reads", "No test opens a container; damage at each possible place has to be tried.",
     ["c/binfile_utils.cpp", "c/binfile_utils.hpp"], [("section table", "c/binfile_utils.cpp constructors"), ("bounded reads", "c/binfile_utils.cpp read"), ("section state", "c/binfile_utils.cpp startReadSection, endReadSection")],
     state=[("reading position", "offset of the next read, inside the data", "c/binfile_utils.hpp"), ("section being read", "none or one", "c/binfile_utils.hpp")],
     technique="runtime monitor with a reference reader over generated and damaged containers, under ASan/UBSan with heap and descriptor balance")
prop("C22", "Witness and key headers are decoded exactly",
     "Loading the header of a well-formed witness or Groth16 key file yields exactly the sizes, primes, counts and verification-key points stored in it, wherever its sections lie in the file and whatever the primes' byte length. A key of another protocol and a header that is cut short, too long or missing are refused with a standard exception. Loading leaves no memory behind, and after a successful load the file can be read on.",
     ["inputs"], "every header content, prime size and section order, well-formed or damaged", "No test loads a header.",
     ["c/wtns_utils.cpp", "c/zkey_utils.cpp"], [("field order and sizes", "c/zkey_utils.cpp loadHeader, c/wtns_utils.cpp loadHeader")],
     technique="runtime monitor with a reference decoder over generated and damaged files, under ASan/UBSan with heap balance")

prop("C23", "Group, tower and transform calls stay inside the buffers they are given",
     "Extension-field, curve, scalar multiplication, recoding, multiexponentiation and transform calls read only the elements, points, scalars and size lists passed to them and write only their result, wherever these lie in memory, even if the inputs are read-only. Inputs come out byte for byte as they went in, and the constants that everyone shares (zero, one, generators, coefficients) stay as they were. The outcome does not depend on where the operands lie nor on what the result held before.",
     ["inputs", "configurations"], "every call, count, scalar length and operand, at every place in memory", NOTEST + "; reading one byte too many, or restoring an input after having changed it, gives the right answer nearly everywhere.",
     ["c/f2field.cpp", "c/f6field.cpp", "c/f12field.cpp", "c/curve.cpp", "c/curve.hpp", "c/exp.hpp", "c/naf.cpp", "c/multiexp.cpp", "c/msm.cpp", "c/fft.cpp"],
     [("digit extraction at the end of the scalars", "c/multiexp.cpp getChunk, c/msm.hpp getBucketIndex"), ("recoding", "c/naf.cpp buildNaf"), ("in-place safe formulas", "c/curve.cpp, c/f12field.cpp")],
     technique="runtime monitor with operands on read-only pages between guard pages and canaries, differential against ordinary memory")
prop("C24", "Every call and every object gives back what it takes",
     "Whatever a call allocates, opens or maps, and every thread it starts, is given back when it returns, or when the object it created is destroyed, on success as well as on every refusal. Repeating any operation any number of times, including building and destroying fields, curves, transform objects, thread pools, containers and headers, leaves heap in use, open files, mappings and threads as they were.",
     ["histories", "faults"], "every operation, every object, every refused construction, repeated without end", NOTEST + " repeatedly, and none looks at what is left behind.",
     ["c/multiexp.cpp", "c/msm.cpp", "c/fft.cpp", "c/misc.hpp", "c/exp.hpp", "c/binfile_utils.cpp", "c/wtns_utils.cpp", "c/zkey_utils.cpp", "src/fr.cpp.ejs"],
     [("temporary tables", "c/multiexp.cpp multiexp, reduce; c/exp.hpp"), ("transform tables and refused sizes", "c/fft.cpp FFT::FFT, ~FFT"), ("files", "c/binfile_utils.cpp"), ("big integers", "src/fr.cpp.ejs")],
     technique="runtime monitor of heap, descriptors, threads and mappings over windows of identical calls, plus heap balance around each call")
prop("C25", "No outcome depends on memory nobody has written",
     "For fully given operands, every decision, every address and every byte of the outcome of a field, extension-field, curve, multi-scalar, transform, text or container operation is determined by the operands alone, never by leftover contents of the stack, the heap, the result or the unused part of an operand. Results are always written completely.",
     ["inputs", "histories"], "every operation on every operand, whatever memory held before", NOTEST + "; memory fresh from the system happens to be zero, so a table that is never cleared works until memory is reused.",
     ["c/multiexp.cpp", "c/msm.cpp", "c/fft.cpp", "c/curve.cpp", "c/f2field.cpp", "c/f6field.cpp", "c/f12field.cpp", "c/binfile_utils.cpp", "src/fr.cpp.ejs", "src/fr.c.ejs", "src/asmbuilder.js", "src/armbuilder.js"],
     [("accumulator tables", "c/multiexp.cpp initAccs, reduce; c/msm.cpp buckets"), ("root tables", "c/fft.cpp FFT::FFT"), ("short and long parts of an element", "src/fr.cpp.ejs, src/*.asm.ejs")],
     technique="valgrind memcheck with undefined results and unused operand parts, definedness of every result bit checked")

prop("C26", "Work stays proportional to the problem",
     "A multi-scalar multiplication of n points takes no more group operations than the bucket method with its best window size does, within a small constant factor and, per thread, one more table; multiplication by a b-bit scalar takes at most b+2 doublings and b/2+2 additions. A transform of size n takes at most (n/2)·log2 n field multiplications, its inverse n more, preparing its tables a few per entry, and a parallel loop gives work to as many workers as there are indices for, their shares differing by at most one index. The integer logarithm the library publishes is exact for every positive 32-bit number, and where operation counters are compiled in, each operation raises the counter of its own kind by exactly one.",
     ["inputs", "configurations"], "every size, scalar length, digit pattern and number of threads", NOTEST + "; an algorithm that has lost its speed still gives the right answer.",
     ["c/multiexp.cpp", "c/msm.hpp", "c/msm.cpp", "c/exp.hpp", "c/naf.cpp", "c/fft.cpp", "c/misc.hpp", "c/misc.cpp", "c/curve.cpp"],
     [("window size", "c/multiexp.cpp multiexp, c/msm.hpp calcBitsPerChunk"), ("non-adjacent digits", "c/naf.cpp"), ("work division", "c/misc.hpp divideWork"), ("integer logarithm", "c/misc.cpp log2"), ("operation counters", "c/curve.cpp")],
     technique="runtime monitor counting operations through an instrumented group and field, compared with closed-form bounds")

prop("C27", "A refused resource never yields a wrong answer or a broken state",
     "When memory, a thread, a file descriptor or a mapping is refused in the middle of a call, the call still gives its exact answer or ends with a standard exception; only a refusal inside a worker thread may end the program. It never gives another answer, never hangs and never touches foreign memory. After such an exception everything acquired on the way has been given back, no piece of the call is still running, and the same call succeeds as soon as the resource is there again.",
     ["faults", "inputs", "schedules"], "every call, every request for a resource it makes, any number of threads", "No test makes a request fail; what a call does then depends on which of its dozens of requests it was.",
     ["c/misc.hpp", "c/multiexp.cpp", "c/msm.cpp", "c/fft.cpp", "c/binfile_utils.cpp", "c/wtns_utils.cpp", "c/zkey_utils.cpp", "c/f2field.cpp", "c/curve.cpp", "c/splitparstr.cpp", "c/exp.hpp", "src/fr.cpp.ejs"],
     [("pieces in flight", "c/misc.hpp parallelFor, parallelBlock"), ("tables on the way out", "c/multiexp.cpp reduce, multiexp; c/fft.cpp FFT::FFT"), ("files", "c/binfile_utils.cpp constructors"), ("texts", "c/f2field.cpp, c/curve.cpp toString")],
     technique="fault injection at every request of a call, with answer, exception, resource, liveness and retry monitors, under ASan/UBSan")
