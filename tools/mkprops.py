import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    P.append(d)
p("C01","The answer is the exact sum of all primes <= x",
 "For every integer x from 0 up to the limit the program itself states, the prime sum reported by the library call and by the command line equals the exact sum of all primes p <= x, printed in full decimal digits; it is 0 for every x < 2. This holds in every arithmetic regime (results that need 64, 128 or 256 bits) and in both build configurations (with and without fast constant division).",
 ["inputs","configurations"],"every x in [0, stated limit], every build configuration",
 "Tests compare the algorithms with each other for x < 10000 and for random x below about 4.5e9, so no value that needs the 128/256-bit paths, several sieve windows or threads is ever compared with anything.",
 ["src/primesum.cpp","src/deleglise-rivat/pi_deleglise_rivat_parallel1.cpp","src/P2.cpp","src/S1.cpp","src/deleglise-rivat/S2_easy.cpp","src/deleglise-rivat/S2_easy_libdivide.cpp","src/deleglise-rivat/S2_hard.cpp","src/deleglise-rivat/S2_trivial.cpp"],
 [("sum = S1 + S2 + primesum(y) - 1 - P2","src/deleglise-rivat/pi_deleglise_rivat_parallel1.cpp"),("width selection by magnitude of x and y","src/P2.cpp, src/S1.cpp, S2_*.cpp")],
 ["return value of primesum::pi","stdout of `primesum x`"])
p("C02","Results do not depend on threads, scheduling, timing or call history",
 "For fixed arguments, a prime sum or any of its published components has the same value for every number of threads, every assignment and ordering of work to threads, every pattern of measured run times that the load balancing reacts to, and every sequence of earlier calls and setting changes in the same process. No schedule makes a computation hang or crash.",
 ["schedules","histories","configurations"],"all thread counts, all interleavings and completion orders of parallel work, all clock readings, all call histories",
 "Tests run 4 threads with whatever schedule the machine gives, on inputs so small that most parallel regions run on one thread and the load balancer sees only tiny timings.",
 ["src/P2.cpp","src/S1.cpp","src/phi.cpp","src/S2LoadBalancer.cpp","src/deleglise-rivat/S2_hard.cpp","src/deleglise-rivat/S2_easy.cpp","src/deleglise-rivat/S2_trivial.cpp","src/lmo/pi_lmo_parallel1.cpp","include/FactorTable.hpp","src/primesum.cpp"],
 [("per-thread partial results merged in thread order","S2_hard.cpp, pi_lmo_parallel1.cpp, P2.cpp master loops"),("OpenMP reductions","all parallel regions"),("dynamic interval sizing from timings","src/S2LoadBalancer.cpp, balanceLoad in src/P2.cpp")],
 ["return values of the component and top-level functions"])
p("C03","Tuning factor alpha never changes a result and is clamped to its range",
 "For every requested tuning factor (including unset, below 1, huge, fractional) every algorithm returns the same prime sum, and the factor actually used is always between 1 and the integer sixth root of x. The reported maximum x for a tuning factor grows with the factor and equals (2^61 * factor)^(3/2).",
 ["inputs","configurations"],"all x, all requested alpha values",
 "No test sets alpha, so only the default factor (close to 1 for small x) is ever used and the boundary y = x^(1/2) is never reached.",
 ["src/primesum.cpp","src/deleglise-rivat/pi_deleglise_rivat_parallel1.cpp","src/lmo/pi_lmo_parallel1.cpp"],
 [("clamp to [1, x^(1/6)]","get_alpha_lmo / get_alpha_deleglise_rivat in src/primesum.cpp")],
 ["get_alpha_* and results with set_alpha / --alpha"])
p("C04","All published algorithms agree on every input they accept",
 "Every algorithm the program offers (Deleglise-Rivat, parallel LMO, and each sequential LMO variant) returns the same exact prime sum for every x that it accepts, and an algorithm that cannot handle x reports an error instead of a wrong number.",
 ["inputs"],"all x accepted by each algorithm, all thread counts for the parallel ones",
 "The self test stops at about 4.5e9; the sequential variants use narrower integer types whose overflow starts above that.",
 ["src/lmo/pi_lmo1.cpp","src/lmo/pi_lmo2.cpp","src/lmo/pi_lmo3.cpp","src/lmo/pi_lmo4.cpp","src/lmo/pi_lmo5.cpp","src/lmo/pi_lmo_parallel1.cpp","src/deleglise-rivat/pi_deleglise_rivat_parallel1.cpp"],
 [("S1 + S2 + primesum(y) - 1 - P2 with y chosen by alpha","src/lmo/*.cpp")],["results of --lmo1..--lmo5, --lmo, --lmo_parallel1, -d, default"])
p("C05","Second partial sieve function: every semiprime is summed exactly once",
 "For every x, y and number of threads, P2(x, y) is the sum of all numbers n = p*q <= x with primes p <= q and p > y (0 if there are none). Splitting the sieved range into windows and per-thread intervals, with sizes that adapt to elapsed time, neither skips nor repeats any such number.",
 ["inputs","schedules","configurations"],"all (x, y), thread counts, window sizes and clock readings",
 "The range is split only when x / y exceeds 2^23, which the tests never reach; window growth and shrinking need elapsed times around one minute.",
 ["src/P2.cpp"],[("window loop, thread intervals and prefix-sum correction","P2_OpenMP_master / P2_OpenMP_thread in src/P2.cpp"),("balanceLoad","src/P2.cpp")],["return value of P2(x, y, threads)","--P2"],
 [("low, thread_distance, prime_sum","progress of the window loop","src/P2.cpp")])
p("C06","Ordinary leaves: S1 is the exact signed sum over squarefree numbers <= y",
 "For every x, y, c and number of threads, S1 equals the sum over all squarefree n <= y coprime to the first c primes of mu(n) * n * (sum of the numbers <= x/n coprime to the first c primes), exactly, for results of any width.",
 ["inputs","schedules"],"all (x, y, c), thread counts",
 "S1 runs on one thread below y = 2e6 and in 64-bit x below 2^63; the tests stay far below both.",
 ["src/S1.cpp","src/phi_sum.cpp"],[("recursive enumeration with alternating sign, static round-robin over the smallest prime","src/S1.cpp")],["return value of S1","--S1"])
p("C07","Special leaves: trivial, easy and hard parts cover each leaf exactly once",
 "For every x, every y with x^(1/3) <= y <= x^(1/2), every c the program can choose (the first c primes are all <= y, and c >= 4 unless they are all of them; c <= 8) and every number of threads, the special leaves split into trivial, easy and hard leaves such that each leaf is counted in exactly one part with its exact contribution; hence S1 + S2_trivial + S2_easy + S2_hard equals the sum of all numbers <= x coprime to the primes <= y. Each of the three parts equals the sum over its own class of leaves.",
 ["inputs","schedules","configurations"],"all x, y between x^(1/3) and x^(1/2), c up to 8, thread counts and segmentations",
 "Only the final total is ever compared and only for small x, where most classes are nearly empty, one thread is used and 64-bit arithmetic suffices.",
 ["src/deleglise-rivat/S2_trivial.cpp","src/deleglise-rivat/S2_easy.cpp","src/deleglise-rivat/S2_easy_libdivide.cpp","src/deleglise-rivat/S2_hard.cpp"],
 [("class bounds min_trivial / min_clustered / min_sparse / min_hard","S2_easy*.cpp, S2_hard.cpp"),("start = max(p_c, sqrt z)","S2_trivial.cpp")],["return values of S2_trivial, S2_easy, S2_hard","--S2_*"])
p("C08","Segment sieve, prefix-sum tree and wheel match a plain set of numbers",
 "After any sequence of pre-sieving, crossing off multiples and re-reading, the segment sieve contains exactly the numbers of its segment that have not been crossed off; every range sum and every prefix sum it or the prefix-sum tree reports equals the sum of those numbers. The wheel visits, for each prime, exactly the multiples >= the segment start whose cofactor is coprime to 2, 3, 5 and 7, each once and in order, across segment boundaries.",
 ["histories","inputs"],"all segment offsets and sizes, all operation sequences, all query ranges",
 "The structures have no test of their own; the self test only reaches offsets up to a few million and never the extreme word positions, sizes or pre-sieve counts.",
 ["src/BitSieve.cpp","include/BitSieve.hpp","include/BinaryIndexedTree.hpp","include/Wheel.hpp","src/Wheel.cpp","include/SumBits.hpp"],
 [("bit masks per prime and copy doubling","BitSieve::pre_sieve"),("masked word sums","BitSieve::sum"),("Fenwick update/query","BinaryIndexedTree.hpp"),("wheel tables","src/Wheel.cpp")],["public methods of the classes"],
 [("sieve bits","numbers still present","BitSieve")])
p("C09","Lookup tables answer exactly like their definitions",
 "For every size, number of threads and argument, the prime-counting tables, the generated lists of primes, prime sums, Moebius values and least prime factors, and the compressed factor table give exactly the mathematical value they stand for (for the factor table: the sign of mu, and comparisons with the least prime factor), and conversions between numbers and compressed indices are exact inverses. Requests beyond a table's stated maximum are rejected.",
 ["inputs","schedules"],"all table sizes, all entries, all thread counts, both entry widths",
 "The factor table is filled by several threads only above 2e7 entries and the wide variant only above 4e9; the tests never get there and never look at single entries.",
 ["include/FactorTable.hpp","src/FactorTable.cpp","src/PiTable.cpp","include/PiTable.hpp","src/generate.cpp","include/generate.hpp","include/PhiTiny.hpp","src/PhiTiny.cpp"],
 [("thread intervals ]low, high] of the factor table","FactorTable constructor"),("bit + count words","PiTable.cpp")],["public accessors"])
p("C10","Partial sieve functions and prime counts are exact, cached or not",
 "phi(x, a) is the count, and phi_sum(x, a) the sum, of the numbers 1..x not divisible by any of the first a primes, for every x and a, any number of threads and whatever was cached before; the Legendre prime count equals the number of primes <= x.",
 ["inputs","schedules","histories"],"all (x, a), thread counts, cache contents",
 "The parallel path of phi starts at x = 2e10; tests only compare the function with itself around x = 1e7.",
 ["src/phi.cpp","src/phi_sum.cpp","src/pi_legendre.cpp","src/PhiTiny.cpp","src/nth_prime.cpp"],
 [("16-bit result cache, private copy per thread","PhiCache in src/phi.cpp"),("128/256-bit recursion switch","src/phi_sum.cpp")],["phi, phi_sum, pi_legendre"])
p("C11","Work distribution tiles the sieve range exactly once and terminates",
 "In every computation of special leaves, for every x, y, number of threads and sequence of measured thread times, the intervals handed to the threads over all rounds are pairwise disjoint, contiguous and cover the whole range exactly, and the computation finishes after finitely many rounds. Segment sizes stay powers of two of at least the minimum size and at least one segment per thread is always scheduled.",
 ["schedules","inputs","configurations"],"all timing vectors, thread counts, (x, y, z)",
 "The balancer reacts to wall-clock ratios; a test run sees one trajectory, with tiny times and few rounds.",
 ["src/S2LoadBalancer.cpp","src/deleglise-rivat/S2_hard.cpp","src/lmo/pi_lmo_parallel1.cpp"],
 [("round loop: clamp threads and segments, advance low","S2_hard_OpenMP_master, S2 in pi_lmo_parallel1.cpp"),("S2LoadBalancer::update","src/S2LoadBalancer.cpp")],["sequence of sieved segments","arguments and results of the load balancer"],
 [("low, segment_size, segments_per_thread","round state","S2_hard.cpp")])
p("C12","Wide integer arithmetic, comparison, conversion and printing are exact",
 "For all operands whose exact result fits, 128- and 256-bit addition, subtraction, multiplication, truncating division and remainder, shifts (of non-negative values, by 0 to 255 bits), bitwise operations, comparisons, conversions and decimal output of signed values give the exact mathematical result.",
 ["inputs"],"all pairs of operands with magnitude below 2^255",
 "There is no test of the wide integer type; the self test reaches results below 2^64 or so, so carries, borrows and mixed signs across the 64/128-bit limbs are never exercised.",
 ["include/int256_t.hpp","include/int128_t.hpp"],[("limb carries, fast paths and schoolbook multiplication","include/int256_t.hpp"),("shift-subtract division","udiv256")],["operators and operator<<"])
p("C13","Number expressions evaluate exactly or are rejected",
 "Every well-formed integer expression (decimal, hexadecimal, exponent notation, + - * / % ** ^ << >> & | ~, parentheses, unary signs; nested up to 1000 levels) evaluates to its exact value under the documented precedence and associativity; a malformed expression, a division by zero, or a value (also an intermediate one) that does not fit the number type is reported as an error and never yields some other number or a crash.",
 ["inputs","histories"],"all expressions, all values",
 "There is no test of the expression parser in this program; operator combinations and magnitudes around 2^127 are unbounded.",
 ["include/calculator.hpp","src/primesum.cpp"],[("operator-precedence parser with a value/operator stack","include/calculator.hpp")],["to_int128(expr)","command-line number arguments"],
 [("stack_","pending operators","ExpressionParser")])
p("C14","Command line: every argument list has exactly its documented effect",
 "For every list of arguments, the program either performs exactly the selected computation with the given settings, in any order of options (a later algorithm option replaces an earlier one), prints the result and exits 0, or prints the help or version text, or an error, and exits non-zero; help is shown when the number is missing, given twice or malformed, or an option is unknown. The output contains the elapsed time exactly when time or status was requested, and component options never mix their results.",
 ["inputs","histories","configurations"],"all argument lists",
 "The test suite never runs the program with anything but --test.",
 ["src/app/main.cpp","src/app/cmdoptions.cpp","src/app/help.cpp"],[("option map and splitting at the first digit or =","cmdoptions.cpp"),("dispatch","main.cpp")],["stdout, stderr, exit code"])
p("C15","Out-of-range inputs are refused, never answered wrongly",
 "Every x above the limit for the current tuning factor, every x above a 63-bit algorithm's range, and every number too large for the program's integer type is refused with an error and a non-zero exit code (the help text counts as an error); no input produces a silently truncated or wrapped result. Inputs at and just below the limit are accepted as inputs, and every x < 1 yields 0.",
 ["inputs","configurations"],"all x, all options, all tuning factors",
 "Limits are around 1e27..1e31; tests never pass such numbers.",
 ["src/app/main.cpp","src/primesum.cpp","src/deleglise-rivat/pi_deleglise_rivat_parallel1.cpp","include/calculator.hpp"],[("get_max_x(alpha) comparison","each entry point"),("63-bit guard","int64_cast in main.cpp")],["exceptions, exit code, stdout"])
p("C16","Progress output is monotone, bounded, correctly formatted and harmless",
 "With status output enabled, for every order in which threads report progress the percentages shown for one computation phase never decrease, stay within 0 and 100, use the requested number of decimals (0 to 5; by default 0, 1 or 2 depending on x) and end with 100%; enabling status changes no result.",
 ["schedules","inputs","configurations"],"all interleavings of reporting threads, all precisions, all x",
 "No test enables status output; the ordering of concurrent reports cannot be controlled by tests.",
 ["src/S2Status.cpp","include/S2Status.hpp","include/OmpLock.hpp","src/P2.cpp","src/print.cpp","src/primesum.cpp"],[("try-lock around check and update","S2Status::print"),("precision selection","get_status_precision")],["stdout with --status"],
 [("time_, percent_","last report","S2Status")])
p("C17","Parallel computation is free of data races",
 "In every parallel computation (second partial sieve, ordinary leaves, trivial, easy and hard special leaves, parallel LMO, partial sieve function, factor table, status reporting), under every schedule no two threads access the same memory location without synchronisation when at least one of them writes.",
 ["schedules"],"all schedules and thread counts of every parallel region",
 "A race shows up only under particular interleavings; tests run small inputs where most regions use one thread.",
 ["src/P2.cpp","src/S1.cpp","src/phi.cpp","src/deleglise-rivat/S2_trivial.cpp","src/deleglise-rivat/S2_easy.cpp","src/deleglise-rivat/S2_easy_libdivide.cpp","src/deleglise-rivat/S2_hard.cpp","src/lmo/pi_lmo_parallel1.cpp","include/FactorTable.hpp","src/S2Status.cpp"],
 [("private/firstprivate/reduction data and padded per-thread slots","OpenMP regions, aligned_vector"),("lock in status reporting","S2Status.cpp")],["memory accesses of the parallel regions"])
p("C18","Prime iterator walks the primes without gaps, repeats or drift",
 "From any start position and stop hint, any sequence of next, previous and skip-to operations on a prime iterator (C++ and C interface) behaves like a cursor on the sequence of all primes: next yields the smallest prime above the cursor, previous the largest below (0 when there is none), and errors are reported only past 2^64.",
 ["histories","inputs"],"all operation sequences, start positions up to 2^64 and stop hints",
 "Tests walk a few fixed ranges; direction changes at buffer limits, small intervals, and positions near 0 and 2^64 depend on the history of calls.",
 ["lib/primesieve/src/iterator.cpp","lib/primesieve/src/iterator-c.cpp","lib/primesieve/src/IteratorHelper.cpp","lib/primesieve/src/PrimeGenerator.cpp"],[("adaptive interval selection","IteratorHelper.cpp"),("buffer refill","iterator*.cpp, PrimeGenerator.cpp")],["iterator methods"],
 [("start, stop, index","buffered interval and cursor","iterator")])
p("C19","Prime counts, k-tuplets, n-th primes and prime lists are exact",
 "For every interval, sieve size and number of threads, the sieve library's counts of primes and of prime k-tuplets, its generated and printed lists and its n-th prime (in both directions) are exact; counting an interval equals the sum of counting any consecutive pieces of it.",
 ["inputs","schedules","configurations"],"all intervals within 64 bits, sieve sizes 8..4096 KB, thread counts, n",
 "Tests use a fixed list of intervals and default settings; interval limits relative to sieve segments, threads and small primes are unbounded.",
 ["lib/primesieve/src/PrimeSieve.cpp","lib/primesieve/src/ParallelSieve.cpp","lib/primesieve/src/Erat.cpp","lib/primesieve/src/EratSmall.cpp","lib/primesieve/src/EratMedium.cpp","lib/primesieve/src/EratBig.cpp","lib/primesieve/src/PreSieve.cpp","lib/primesieve/src/PrintPrimes.cpp","lib/primesieve/src/nthPrime.cpp","lib/primesieve/src/popcount.cpp","lib/primesieve/src/LookupTables.cpp"],
 [("thread interval alignment","ParallelSieve.cpp"),("wheel sieving","Erat*.cpp"),("count tables for tuplets","PrintPrimes.cpp")],["C++ API, C API and primesieve program output"])
p("C20","Sieve library settings and errors behave as documented",
 "Settings are clamped to their documented ranges and can be read back; the C interface reports an impossible request (values that do not fit the requested type, primes beyond 2^64, invalid type) by its error value and errno, never by wrong primes, and the C++ interface by an exception; empty intervals give empty results. After an error the library keeps working correctly.",
 ["inputs","histories","fault_sequences"],"all argument values and sequences of calls including failing ones",
 "Tests check few of the error paths and none after a sequence of mixed calls.",
 ["lib/primesieve/src/api-c.cpp","lib/primesieve/src/api.cpp","lib/primesieve/include/primesieve/StorePrimes.hpp","lib/primesieve/src/iterator-c.cpp"],[("exception to errno translation","api-c.cpp"),("type range checks","StorePrimes.hpp")],["return values, errno, exceptions"])
p("C21","Batch script processes every work item exactly once, in order",
 "The batch script runs the program once for each non-empty, non-comment line of the work file, in order and with that line's options, removes a line only after its run succeeded, and stops at the first failure leaving the failed and later lines in the file; a run interrupted at any point and restarted never loses a line.",
 ["histories","crash_points","fault_sequences"],"all work files, all failure positions and interruption points",
 "The script is not tested at all.",
 ["scripts/worktodo.sh"],[("read first line, run, then rewrite file via temporary and rename","scripts/worktodo.sh")],["sequence of program runs and contents of the work file"])
p("C22","Integer roots, divisions and power-of-two helpers are exact",
 "Integer square roots and n-th roots, ceiling division, powers, powers-of-two rounding, clamping, binary-search prime counts and mixed-width division return the exact mathematical value for every non-negative argument of every supported integer type, in particular next to perfect powers and at the type limits where the result is representable (for ceiling division: where dividend plus divisor is representable).",
 ["inputs"],"all arguments of 32-, 64- and 128-bit types",
 "Floating point estimates are wrong only next to large perfect powers, which no test visits.",
 ["include/imath.hpp","include/isqrt.hpp","include/fast_div.hpp","include/min_max.hpp","include/popcnt.hpp"],[("floating point estimate followed by correction loops","isqrt.hpp, imath.hpp"),("narrow division when operands fit","fast_div.hpp")],["function return values"])
p("C23","The primesieve program does what its options say",
 "Every argument list of the bundled primesieve program (START STOP, distances, counts and lists of primes and k-tuplets, n-th primes, thread and sieve size settings, quiet and status output; values attached, after '=' or as the next argument) has exactly its documented effect, in any order of the options: counts and lists are exact for all intervals below 2^64 and lists are in order, the progress shown rises to 100%, quiet output holds only the results. Anything malformed, missing or beyond 2^64 is an error without a result, never an answer for a different number.",
 ["inputs","configurations","schedules"],"all argument lists; all intervals below 2^64",
 "The tests call the library; no test runs this program.",
 ["lib/primesieve/src/app/cmdoptions.cpp","lib/primesieve/src/app/main.cpp","lib/primesieve/include/primesieve/calculator.hpp","lib/primesieve/src/ParallelSieve.cpp"],[("option table and value parsing","lib/primesieve/src/app/cmdoptions.cpp"),("choice of threads for lists","lib/primesieve/src/app/main.cpp")],["output and exit code of the primesieve program"])
p("C24","The tuning script finds and reports the fastest factor it measured",
 "For each exponent n from start to stop, in order, the tuning script (find_fastest_alpha.sh) runs the program only on 10^n with the given number of threads and factors >= 1, a bounded number of times whatever times it measures (less often when every run takes long), and prints exactly one line: the program's own factor, the threads, the smallest time measured and the first factor that had it (undef if that factor is 1 or the time is 0). When the times have a single minimum within 45% of the program's own factor, the factor reported is close to it. An unknown option or a missing program is an error without any measurement.",
 ["inputs","histories"],"all exponents and thread options, all measured times and factors of the program",
 "The script is not tested at all, and real times differ from run to run.",
 ["scripts/find_fastest_alpha.sh"],[("two nested searches on grids","scripts/find_fastest_alpha.sh")],["runs of the program and lines printed"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
for d in P: assert len(d['title'])<=80,(d['id'],len(d['title']))
print(len(P))
