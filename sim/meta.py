# What each check runs and reports; used by check.py.
REAL = ["all of /repo/include/configor (compiled from the working tree with AddressSanitizer and edge coverage)",
        "libstdc++ streams, strings and containers", "glibc stdio and locale code"]
STUB = ["memory allocator failures (global operator new/delete)", "devices: stream buffers, C FILE cookies/pipes, input and output adapters",
        "error handlers and custom encodings supplied by the simulated user"]
ASSUME = ["a clean batch of sampled runs is evidence, not proof",
          "user callbacks behave as the library's documentation requires (for example, an encoding consumes what it decodes)",
          "CONFIGOR_ASSERT is defined as a check that reports a violation instead of being compiled out"]

META = {
    "C01": dict(runs=(40000, 1500000), rule="one run = 1..4 values x option sets written to sinks that fail at a drawn unit (refusal, throw, short write, full FILE, allocation failure) or are healthy; non-trivial = an injected failure actually fired inside a dump",
                must=["write-error", "write-error-transient", "alloc-fail"]),
    "C02": dict(runs=(40000, 1500000), rule="one run = documents read through each source kind with a read error at a drawn unit (persistent or transient, thrown or EIO/EAGAIN); non-trivial = the error fired while the document was incomplete for the parser",
                must=["read-error", "read-error-transient"]),
    "C03": dict(runs=(30000, 1000000), rule="one run = the same units (healthy or damaged) delivered through several sources, buffer sizes and entry points; non-trivial = at least two differently chunked deliveries were compared"),
    "C04": dict(runs=(30000, 1000000), rule="one run = a history of saves, failed saves, crashes with torn tails, retries and reloads of a simulated store against the last acknowledged value; non-trivial = at least one reload was judged"),
    "C05": dict(runs=(40000, 1500000), rule="one run = documents with drawn storage damage, parsed (also with a drawn allocation failing) and compared with an independent reference parser; non-trivial = damage changed the units",
                must=["alloc-fail", "border-of-grammar"]),
    "C06": dict(runs=(30000, 1000000), rule="one run = parse/dump operations with and without handlers of five policies under damage and device faults; non-trivial = the operation fails without a handler"),
    "C07": dict(typed=True, runs=(40000, 1500000), rule="one run = a history of value, parse, dump, conversion and typed-stream operations with allocation, device, encoding and user-hook failures, over json, wjson and a value type with an accounting allocator; non-trivial = an operation failed because of an injected fault",
                must=["alloc-fail", "user-hook-throws", "read-error", "write-error"]),
    "C13": dict(typed=True, runs=(40000, 1500000), rule="one run = histories of conversions of 50 generated C++ types to and from values and streams, judged against a model of both sides, with allocation and hook failures; non-trivial = a conversion was made to fail",
                must=["alloc-fail", "user-hook-throws"]),
    "C08": dict(runs=(40000, 1500000), rule="one run = a history of container operations on several values (aliasing, self-assignment, iterators, moves) judged against a plain model after every step, with allocation failures; non-trivial = a mutating operation failed or several values were involved",
                must=["alloc-fail"], technique="seeded histories with allocation failures against a reference container model after every step"),
    "C09": dict(typed=True, runs=(25000, 1000000), rule="one run = 2..4 tasks with their own or shared constant values, interleaved by the seeded scheduler at instrumented edges, library allocations and callbacks; every task's result is compared with running alone; non-trivial = at least one preemption inside the library",
                technique="seeded scheduler preempting real threads at any instrumented edge, results compared with running alone"),
    "C10": dict(typed=True, runs=(40000, 1500000), rule="one run = an outer operation whose callbacks run drawn nested operations (up to three deep, failing ones included), all compared with running alone; non-trivial = a nested operation ran",
                must=["alloc-fail"], technique="seeded re-entrance at every user callback, with failing nested operations, results compared with running alone"),
    "C11": dict(typed=True, locale=True, runs=(40000, 1500000), rule="one run = an operation executed in a clean and in a hostile environment (global C++ and C locales, imbued locale, stream flags, locale changes in the middle of the operation), compared; non-trivial = both executions were compared",
                must=["global-locale-changed-mid-operation"], technique="seeded environment changes (locale, flags) before and in the middle of operations, compared with a clean environment",
                assume=["the caller's locale does not redefine basic characters (its ctype facet widens them to themselves)"]),
    "C12": dict(runs=(40000, 1500000), rule="one run = texts with open constructs, cuts and damage read through every source kind with read errors; bounds: 64 requests and 50000 + 2000 per unit steps after the source's first signalled end or error; non-trivial = the source signalled an end",
                must=["read-error", "read-error-transient"], technique="seeded sources that end or fail anywhere, progress bounded in requests and steps after the end is signalled"),
    "C14": dict(runs=(80000, 3000000), rule="one run = a mix of standard stream operations on an adapter stream, each result, count and state compared with the same stream over the plain characters, with adapters that throw and are used on; non-trivial = at least three kinds of operation",
                must=["read-error", "read-error-transient", "write-error", "write-error-transient"], technique="seeded histories of stream operations with failing adapters against a reference stream"),
    "C17": dict(replaced=True, runs=(25000, 800000), rule="one run = a history of container operations, or of documents read and written through every source and sink and of conversions, over one of five value types with replaced integer, float, array, object, allocator and binder types (narrow and wide), with allocation, read and write failures, judged against the model of the shipped types narrowed to the replaced ones; non-trivial = an operation failed without effect or several values were involved",
                must=["alloc-fail", "read-error", "write-error"], technique="seeded histories with allocation and device failures over value types with replaced template arguments, against the same reference model"),
    "C18": dict(runs=(25000, 1000000), rule="one run = a series of dumps of three values to two long-lived streams and to strings, with stored option sets and stream knobs, some of them failing, each successful text compared with a reference writer; non-trivial = a dump failed in between",
                must=["alloc-fail", "write-error", "write-error-transient"], technique="seeded series of dumps with failing ones in between against a reference writer"),
    "C19": dict(runs=(22000, 1000000), rule="one run = a relay: data dumped and parsed again hop by hop through drawn source and target encodings of text and of the strings inside narrow and wide values, with damage to stored text and to strings in memory, encodings that refuse a character, device and allocation failures; each hop judged by a reference transcoder; non-trivial = a hop was judged",
                must=["memory-damage", "storage-damage", "encoding-refuses", "alloc-fail", "write-error", "read-error"], technique="seeded relay of dumps and parses with damage and refusing encodings against a reference transcoder"),
}
