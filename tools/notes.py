HOOKS = None
NA = {}
BASE = ("Trusts TLC, the TLA+ definitions (spec/lib), whose fast Java overrides are compared with the plain definitions by TLC on a small domain in every run, "
        "g++, and the deterministic OpenMP runtime in /verif/harness. Conformance covers the inputs and schedules generated from VERIF_SEED, not all inputs. ")
CT = "sessions of the real code recorded and validated by TLC against spec/trace/"
M = "TLA+, TLC: "
_n = {
 "C01": (M + "decomposition (Identity.tla) exhaustively for small x, every y and c; " + CT + "CoreTrace.tla (library, both builds, wide-code build, the program)",
         "Exact oracle for x <= 4*10^11 and within 4*10^8 of powers of ten up to 10^16; beyond that only parts of a computation."),
 "C02": (M + "P2Windows.tla and HardLeaves.tla under all clocks and merge orders; histories generated by TLC (Histories.tla) replayed under a deterministic OpenMP runtime with scheduled interleavings and clocks; " + CT + "CoreTrace.tla, LBTrace.tla",
         "Interleavings at synchronisation points; C17 covers what happens between them."),
 "C03": (M + "Identity.tla for every legal y; " + CT + "CoreTrace.tla with factors at and next to every limit (Limits.tla)",
         "Floating-point rounding of the effective factor is accepted within 10^-9 relative."),
 "C04": (M + "Identity.tla; all ten entry points and all options on the same x; " + CT + "CoreTrace.tla", "Sequential variants up to about 10^12."),
 "C05": (M + "P2Windows.tla (windows, clocks, merge in order; four mutants refuted); " + CT + "CoreTrace.tla: P2 for arbitrary y, thread counts, clocks, up to windows beyond 3*10^10", ""),
 "C06": (M + "definition over squarefree numbers; " + CT + "CoreTrace.tla: S1 at 63, 64, 96, 127 bits, threads, wide-code build", "S1 has no state of its own; there is no separate state machine."),
 "C07": (M + "HardLeaves.tla (rounds, segments, merge; mutants refuted); " + CT + "CoreTrace.tla: each class on its own and recombined, far and huge x", "Hard leaves for x > 2^63 only with a cut z."),
 "C08": (M + "SieveImpl.tla (wheel state across segments, prefix-sum tree, incremental sums; mutants refuted); " + CT + "SieveTrace.tla against SegmentSieve.tla, positions up to 2^62", ""),
 "C09": (M + "FactorTable.tla, Tables.tla (mutants refuted); " + CT + "TableTrace.tla: whole tables, windows, every boundary between threads", "Tables of several GB are not built."),
 "C10": (M + "PhiCache.tla (cache shared out under every assignment; mutants refuted); " + CT + "CoreTrace.tla", ""),
 "C11": (M + "LoadBalancer.tla for every history of decisions, HardLeaves.tla for tiling; " + CT + "LBTrace.tla: every segment sieved and every decision, with clocks as inputs", ""),
 "C12": (M + "Int256.tla: all operand pairs of 8-bit numbers, scaled to 256 bits and replayed; " + CT + "ArithTrace.tla against exact integers, -O2 and -O3", ""),
 "C13": (M + "ExprParser.tla: all token sequences up to 5 (6) tokens against ExprSem.tla; expressions generated by TLC (ExprGen.tla) replayed; " + CT + "ArithTrace.tla: both copies of the parser, 32 to 128 bits, signed and unsigned", ""),
 "C14": (M + "Cli.tla: all argument lists up to a length; its behaviours replayed on the real program; " + CT + "CliTrace.tla (CliSem.tla, CliOutput.tla)", "Readings the documentation leaves open are all accepted."),
 "C15": (M + "Refuse.tla: all inputs around every narrowing, word sizes as parameters; " + CT + "CliTrace.tla and CoreTrace.tla next to every limit", "Accepted inputs near the limit are observed only until their computation started."),
 "C16": (M + "S2Status.tla: all interleavings and clocks (mutants refuted); " + CT + "StatusTrace.tla: the status object, whole phases, the program", ""),
 "C17": (M + "happens-before (Race.tla) shown equal to reachability on OmpRace.tla; accesses and synchronisation of the real parallel regions recorded, every pair judged by TLC (RaceTrace.tla)",
         "A region is judged for the accesses it made in the recorded schedule. Accesses inside libstdc++ binaries are not recorded."),
 "C18": (M + "PrimeIterator.tla (mutants refuted); " + CT + "PsTrace.tla: walks of both iterators over the 64-bit range", ""),
 "C19": (M + "Counting.tla, NthPrime.tla (mutants refuted); " + CT + "PsTrace.tla: counts, tuplets, lists, n-th primes, threads, smallest chunk lengths", "Intervals up to about 10^9 numbers below 10^12, shorter ones above."),
 "C20": (M + "ApiErrors.tla (mutants refuted); " + CT + "PsTrace.tla: settings, impossible requests, ordinary requests after them", ""),
 "C21": (M + "Worktodo.tla with interruptions between any two steps; histories of the model and every kill point replayed on the real script; " + CT + "WorkTrace.tla", "Interruption = death of the processes; loss of unsynced disk blocks is not modelled."),
 "C22": (M + "Roots.tla: every floating-point error up to a bound; " + CT + "ArithTrace.tla against exact integers, -O0 and -O2", ""),
 "C23": (M + "PsCli.tla: all argument lists up to a length (mutants refuted); its behaviours replayed on the real program; " + CT + "PsCliTrace.tla (PsCliSem.tla, SieveApi.tla)", "Lists of several kinds at once and more than two numbers are left open."),
 "C24": (M + "AlphaSearch.tla: arbitrary and single-minimum times (mutants refuted); its behaviours replayed on the real script with a program of planned speed; " + CT + "AlphaTrace.tla", "The program is a stand-in printing the real program's output with planned times and factors."),
}
for _i, (_t, _l) in _n.items():
    NOTE[_i] = (_t, BASE + _l)
