# The properties, and how each is decided.  mk.py writes properties.jsonl and
# MANIFEST.json from this table.
P = []
NA = []

def prop(id, title, statement, over, quant, why, files, mech, technique, note, level="other"):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mech=mech, technique=technique, note=note, level=level))

def na(id, title, statement, over, quant, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mech=mech, reason=reason))

prop("C02", "Literal, watch and clause-header encodings lose nothing",
 "Converting between variables, signs, literals and DIMACS integers is exact: the two literals of a variable are distinct, negation flips the sign and keeps the variable, and every literal is read back from its DIMACS code. The packed words in which the solver keeps watches and clause headers give back every component as it was stored, also after a watch is relocated and after a header is bumped or decayed.",
 ["inputs"], "every variable below 2^31, every clause location, blocking literal, flag, size and distance",
 "The tests convert a handful of small literals; the packed words differ from correct ones only for particular high bits.",
 ["z/lit.go", "z/var.go", "internal/xo/watch.go", "internal/xo/chd.go"],
 [("literal arithmetic", "z/lit.go Lit, z/var.go Var"), ("watch packing", "internal/xo/watch.go MakeWatch, Relocate"), ("header packing", "internal/xo/chd.go MakeChd, Bump, Decay")],
 "abstract interpretation over go/ssa in a bit-provenance and a linear-integer domain",
 "Exact for all inputs within the stated widths: the decoders composed with the encoders are the identity on the abstract value. Assumes variables below 2^31 and that the analyser models Go integer semantics.")

prop("C03", "Circuit gate constructors denote their Boolean functions",
 "For all operand literals, including constants, equal and complementary ones, the literal returned by each gate constructor of a circuit (and, or, xor, implication, choice and the n-ary forms) denotes that function of its operands. A gate that already exists is only reused for the same two operands. Growing the circuit keeps the operands of every existing gate, and each new variable takes the next free index.",
 ["inputs", "histories"], "every operand identity (constant, equal, complementary, distinct, both signs), every truth assignment, every stored circuit",
 "The tests build fixed circuits; a wrong reuse needs a particular hash bucket content, and a wrong growth needs a circuit at its capacity.",
 ["logic/c.go"],
 [("conjunction with structural hashing", "logic/c.go C.And"), ("derived gates", "logic/c.go Or, Xor, Implies, Choice, Ands, Ors"), ("storage growth", "logic/c.go grow, newNode")],
 "disjunctive abstract interpretation over go/ssa (literal identities x truth values)",
 "Every feasible return of every constructor, for every partition of operand identities and every truth row; hash chains and node storage are arbitrary. n-ary gates are decided for at most 4 operands. Which node a chain reaches is not constrained, so maximal sharing is not claimed.")

prop("C10", "The CRISP and AIGER integer codecs are inverse and lossless",
 "Every integer written by the CRISP protocol codec or by the binary AIGER delta codec is read back as the same integer, and the reader consumes exactly the bytes which the writer wrote. Any other byte sequence is either decoded to the integer its payload bits spell, with no bit dropped, or rejected. The buffered CRISP stream sends every buffered byte once and in order, whatever the sizes of partial reads and writes, and a read does not wait for more bytes once there is one.",
 ["inputs", "fault_sequences"], "every 32 bit integer (CRISP), every delta below 2^62 (AIGER), every sequence of input bytes, every split into partial reads and writes",
 "The tests write a few small values; errors sit at the boundaries of the byte groups, at the last group, and at partial writes.",
 ["crisp/vu32io.go", "logic/aiger/aiger.go"],
 [("CRISP varint", "crisp/vu32io.go readu32, writeu32"), ("CRISP buffering", "crisp/vu32io.go fill, flush, readByte, writeByte"), ("AIGER deltas", "logic/aiger/aiger.go read7, write7")],
 "abstract interpretation over go/ssa in a bit-provenance domain, composing encoder and decoder",
 "Exact over unknown bits. Loops are unrolled to their end (at most 12 iterations); the buffer layer is decided for up to 3 partial writes or reads with symbolic sizes.")

prop("C21", "Unit propagation loses no clause and derives only what clauses imply",
 "While an assignment is propagated, every clause which watches a falsified literal stays watched: the watch is either kept, or moved to another literal of the clause that is not false, whatever clause is found satisfied, unit, or in conflict in between. A literal is derived, and a conflict is reported, only when every other literal of the clause was found false; and propagation ends without a conflict only when every assigned literal has been processed.",
 ["inputs", "histories"], "every clause, every assignment, every position in a watch list, every step of the propagation",
 "A lost watch makes the solver miss propagations, and later answer satisfiable wrongly, only on formulas where that clause becomes unit again; the tests sample a few formulas.",
 ["internal/xo/trail.go"],
 [("propagation over watch lists", "internal/xo/trail.go Trail.Prop")],
 "disjunctive abstract interpretation over go/ssa of an arbitrary propagation step (inductive over the loops)",
 "One arbitrary iteration of every loop, all feasible paths; the state before it is arbitrary up to the stated invariant that a watch of a literal refers to a clause with the literal in one of its first two places. That the invariant is set up when clauses are added is not part of this check.")

prop("C13", "Test scopes nest, and clauses change only outside them",
 "Each test opens exactly one scope, which remembers where the assumptions before it ended, and each matching untest closes exactly the last one and returns to where it began, on every path and whatever the answers in between. Adding a clause or changing activation literals inside an open scope panics before the clauses change; outside, it takes place with all decisions undone and with the previous failure forgotten, and a clause which is unit takes effect at once.",
 ["histories"], "every history of assume, solve, test, untest, add, activate and deactivate calls",
 "The tests use a few fixed sequences; a wrong level needs a failing test followed by particular untests, or a solve in between.",
 ["internal/xo/s.go"],
 [("scopes", "internal/xo/s.go Test, Untest"), ("guard of clause changes", "internal/xo/s.go ensure0, Add, Activate, Deactivate")],
 "typestate analysis by disjunctive abstract interpretation over go/ssa",
 "All paths of each operation from an arbitrary state in which at most one of conflict and failed assumption is recorded. The trail operations are taken by their contracts (C21, C27); what the late entries of the trail do on untest is not decided.")

prop("C14", "Assumptions hold for exactly one call and are never undone in it",
 "Every assumption made before a call to solve or test is either found true, or made true and propagated, before the search starts, in the order given and with none skipped. The search never backtracks below the assumptions; and when the call ends, with whatever answer, its assumptions are forgotten, so that they do not apply to the next call.",
 ["histories", "inputs"], "every list of assumptions, every answer, every backtracking and restart step of the search",
 "A dropped assumption shows as a wrong 'satisfiable' only when the model happens to violate it; leftovers show only in a later call.",
 ["internal/xo/s.go"],
 [("assumptions", "internal/xo/s.go makeAssumptions"), ("backtracking in the search", "internal/xo/s.go Solve")],
 "disjunctive abstract interpretation over go/ssa with inductive loop obligations",
 "One arbitrary iteration of every loop; the trail is taken by its contracts (C21, C27).")

prop("C24", "Every answer is backed by evidence found in the same call",
 "The solver answers satisfiable only after propagation ended without conflict and no variable is left to decide; it answers unsatisfiable only with a conflict at or below the assumptions, an empty clause, or an assumption found false, and it records exactly this one as the evidence for later explanations. It gives up with 'unknown' only after undoing the search, every conflict found in the search is answered by asserting the derived literal after backtracking, and a test reports consistency only after its assumptions were propagated.",
 ["histories", "inputs"], "every path of solve, test and untest, from every recorded previous outcome",
 "Wrong or stale evidence needs particular sequences of calls, conflicts at particular levels, or cancellation at a particular moment.",
 ["internal/xo/s.go"],
 [("search loop", "internal/xo/s.go Solve"), ("tests", "internal/xo/s.go Test, Untest, cleanupSolve")],
 "typestate and value analysis by disjunctive abstract interpretation over go/ssa",
 "All paths, one arbitrary iteration per loop. Propagation, clause derivation and the decision heap are taken by contract: that they are right is claimed in part by C21, C27 and C28; correctness of learned clauses is not claimed (C50).")

prop("C26", "Explanations follow the recorded reasons completely",
 "After an unsatisfiable answer, the failed assumptions are found by tracing the recorded evidence: every literal of every reason on the way is followed, exactly the assumptions which are reached are reported, as the literals that were assumed, and nothing is reported after any other answer. The reasons of a propagated literal are the complements of all other literals of the clause which implied it.",
 ["inputs", "histories"], "every conflict, every implication graph, every clause length",
 "A literal missed in a trace shows only for implication graphs in which it is the only way to reach a failed assumption.",
 ["internal/xo/s.go"],
 [("failed assumptions", "internal/xo/s.go Why, final, finalRec"), ("reasons", "internal/xo/s.go Reasons")],
 "disjunctive abstract interpretation over go/ssa, one arbitrary visit and clause position",
 "Inductive over the trace. Minimality is not claimed. Assumes that the implied literal is first in its clause, which C21 decides for propagation.")

prop("C27", "The assignment trail and its tables stay consistent",
 "Assigning a literal makes it true and its negation false, records its reason and level, and appends it to the trail. Backtracking to a level undoes exactly the assignments above this level, resets their values, reasons and levels, and makes each of these variables available for decisions again, remembering the value it had.",
 ["histories"], "every literal, every level, every content of the trail",
 "An entry which is not undone only shows in the particular searches which meet this variable again after backtracking over it.",
 ["internal/xo/trail.go"],
 [("assignment", "internal/xo/trail.go Trail.Assign"), ("backtracking", "internal/xo/trail.go Trail.Back")],
 "disjunctive abstract interpretation over go/ssa, one arbitrary iteration per loop",
 "Inductive: an arbitrary iteration of the backtracking loop on an arbitrary trail. Assumes that levels do not decrease along the trail below the target level, which holds after the late entries were sorted out.")

prop("C16", "Every table covers every variable the solver has met",
 "Whatever literal enters the solver by adding, assuming, activating or as a fresh variable, every table which is indexed by variables or literals has an entry for it before it is used, growing keeps the entries which the tables had, and all tables of a new solver cover its initial capacity. The greatest variable is recorded exactly, fresh literals take the next one, every variable up to it becomes available for decisions, and every assumption is recorded.",
 ["inputs", "histories"], "every variable below 2^29, every capacity, every content of the tables, every order of entry points",
 "A table which is too small or loses an entry shows only when a variable meets a particular capacity boundary while the entry matters.",
 ["internal/xo/s.go", "internal/xo/vars.go", "internal/xo/cdb.go", "internal/xo/trail.go", "internal/xo/guess.go", "internal/xo/derive.go", "internal/xo/active.go"],
 [("capacity tracking", "internal/xo/s.go ensureLitCap, Assume, Add, ActivateWith, Lit"), ("growth of the tables", "internal/xo growToVar methods"), ("initial tables", "internal/xo/s.go NewSVc")],
 "type-directed discovery of the indexed tables, then disjunctive abstract interpretation over go/ssa with linear arithmetic",
 "Tables are found from the types of the index expressions; sizes are decided symbolically for every capacity. The heap of decisions is taken by contract (C28). Literals which callers pass to other entry points (values, deactivation) are assumed to be known to the solver.")

prop("C28", "The decision heap loses no variable and is left by assigned ones only",
 "Every operation on the decision heap keeps positions and entries inverse: the variable at each entry has that entry as its position, and a variable which is marked as outside is in no entry. No operation loses a variable; a variable which is given back is in the heap again with its remembered phase; and a variable is only taken out if it is assigned or is the answer. \"No variable is left\" is answered only when none is unassigned.",
 ["inputs", "histories"], "every heap content, every assignment, every step of every heap operation",
 "If a variable is lost from the heap, it is never decided again and a partial assignment is reported as a model, but only for histories of conflicts and activity which tests do not sample.",
 ["internal/xo/guess.go"],
 [("heap moves", "internal/xo/guess.go up, down, swap, pop"), ("giving back", "internal/xo/guess.go Guess.Push"), ("deciding", "internal/xo/guess.go Guess.Guess, has")],
 "disjunctive abstract interpretation over go/ssa with aliasing case splits (inductive over the loops)",
 "All paths of one arbitrary operation from an arbitrary heap whose positions and entries are inverse. The order of the heap (which variable is hottest) is not claimed, nor that growing the heap sets up the invariant.")

prop("C31", "Unsatisfiable without assumptions stays unsatisfiable",
 "Once the solver found the clauses inconsistent without any assumption, every later answer of solve, test and untest is unsatisfiable, whatever clauses are added, activated or deactivated and whatever is assumed in between. The conflict is recorded as an empty clause before anything which tells of it is forgotten or undone.",
 ["histories"], "every sequence of operations after the inconsistency was found",
 "It needs a second call after an unsatisfiable answer without assumptions; the tests mostly stop at the first one.",
 ["internal/xo/s.go", "internal/xo/cdb.go"],
 [("recording", "internal/xo/s.go learnBot, Solve, Untest, makeAssumptions"), ("forgetting", "internal/xo/s.go cleanupSolve, ensure0"), ("the empty clause", "internal/xo/cdb.go Cdb.Learn")],
 "typestate analysis by disjunctive abstract interpretation over go/ssa (inductive over operations)",
 "All paths of each operation from the three kinds of inconsistent states; every operation ends in such a state. That the empty clause survives the compaction of the clause memory is decided by C15, that copies keep it by C01.")

prop("C04", "Clauses generated from a circuit define exactly its gates",
 "Converting a circuit to clauses fixes the constant and sends, for each gate, clauses which are equivalent to \"the gate is the conjunction of its operands\", and none for inputs and latches. Converting from roots does so for every gate reachable from any of the roots. Incremental conversion sends nothing for what is marked as already sent, keeps earlier marks, starts new nodes unmarked, and marks all it visits.",
 ["inputs", "histories"], "every circuit, every operand sign, every set of roots, every earlier marking and every length and capacity of its storage",
 "Tests convert small circuits and check satisfiability of the whole; a gate which is under-constrained only shows when its missing clause decides, and marks only when storage is reused.",
 ["logic/c.go"],
 [("whole circuit", "logic/c.go C.ToCnf, addAnd"), ("from roots", "logic/c.go C.ToCnfFrom, C.CnfSince")],
 "disjunctive abstract interpretation over go/ssa of one arbitrary node visit; the clauses sent are compared with the definition of the gate by truth table over their symbolic literals",
 "All paths of one arbitrary iteration and one arbitrary recursive visit, inductive over the circuit. Assumes that operands come before their gate (C03) and that marks are 0 or 1; the count of added nodes is not claimed.")

prop("C05", "Evaluating a circuit gives every gate its value",
 "After evaluation, the value of the constant is true, the value of every gate is the conjunction of the values of its operands with their signs, and the values of inputs are as the caller set them. The 64-fold evaluation does so in each bit independently.",
 ["inputs"], "every circuit, every operand sign, every value of the inputs, every bit",
 "Tests evaluate a few circuits for a few values.",
 ["logic/c.go"],
 [("evaluation", "logic/c.go C.Eval"), ("evaluation of words", "logic/c.go C.Eval64")],
 "disjunctive abstract interpretation over go/ssa of one arbitrary node; truth tables per bit for words",
 "All paths of one arbitrary iteration, inductive over the nodes in order. Assumes that operands come before their gate (C03) and that the slice of values covers the circuit.")

prop("C06", "Cardinality constraints count",
 "For every set of literals and every bound, also negative ones and ones above the number of literals, the literals for \"at most\", \"less than\", \"at least\" and \"more than\" are true exactly if the number of true literals is so. The underlying network compares so that its outputs are sorted for any number of inputs.",
 ["inputs"], "every number of literals, every bound, every assignment",
 "Tests try a few sizes; an off-by-one in a threshold, in the padding or in the merge shows only for particular sizes and bounds.",
 ["logic/card.go"],
 [("thresholds", "logic/card.go CardSort.Leq, Geq, Less, Gr"), ("padding", "logic/card.go NewCardSort"), ("network", "logic/card.go sort, merge, cas")],
 "disjunctive abstract interpretation over go/ssa with linear arithmetic; comparators by truth table; recursion against the induction of the odd-even merge sort",
 "Thresholds for every bound and size against sorted outputs. Sortedness by induction: halves are sorted and merged, a merge does its even and odd parts and then compares each odd output with the next even one, two are compared directly; that this scheme sorts powers of two is Batcher's theorem. A different sorting scheme would have to be argued anew.")

prop("C32", "Unrolling gives each literal its value at each depth",
 "The literal which unrolling returns for a literal of a sequential circuit at a depth is its value after that many steps: the same literal for each request, a new input per depth for an input, the initial value (or an unconstrained one) of a latch at depth zero and its next state at the depth before otherwise, and for a gate the conjunction of its operands at that depth, all with the sign of the literal.",
 ["inputs", "histories"], "every sequential circuit, every literal and sign, every depth, every order of requests",
 "Tests unroll small circuits in increasing depth; a mistake in what is remembered shows only in particular orders of requests and signs.",
 ["logic/roll.go"],
 [("unrolling", "logic/roll.go Roll.At"), ("table", "logic/roll.go NewRoll")],
 "disjunctive abstract interpretation over go/ssa of one arbitrary step with its recursive calls by contract",
 "All paths of one step for every kind of node, inductive over depth and structure. Assumes that the circuit has no combinational cycle and is not extended after the unrolling was created.")

prop("C15", "Garbage collection removes only unused clauses and moves every reference",
 "A clause which is the reason of a current assignment is never removed as unneeded. A clause which is removed leaves the watches of both literals it watches, and no other clause does. When clause memory is compacted, every remaining clause is moved unchanged, and every place which refers to clauses (learned and added clauses, the empty clause, reasons, watches, activation occurrences) refers to it at its new location afterwards, in order and with no entry lost.",
 ["histories"], "every clause memory, every set of removed clauses, every content of the tables which refer to clauses",
 "Compaction runs only after many learned clauses, and a stale location shows as a wrong answer only when the clause at the old place happens to matter; the tests reach few compactions.",
 ["internal/xo/cgc.go", "internal/xo/cdat.go", "internal/xo/cdb.go", "internal/xo/active.go"],
 [("selection and relocation", "internal/xo/cgc.go Compact, CompactCDat, relocate"), ("moving clauses", "internal/xo/cdat.go CDat.Compact"), ("unlinking", "internal/xo/cdb.go Cdb.Unlink"), ("activation occurrences", "internal/xo/active.go CRemap")],
 "disjunctive abstract interpretation over go/ssa of an arbitrary entry of each table and of an arbitrary clause (inductive over the loops)",
 "One arbitrary iteration of every loop under an arbitrary relocation map. Unlinking enumerates the watched literals of up to three removed clauses, with arbitrary watch lists. That watches refer to the first two literals is the invariant of C21; which of the unneeded clauses are removed is a heuristic.")

prop("C07", "AIGER output describes exactly the circuit it is written for",
 "Writing an AIGER object emits, in both forms, the sections of the format in their order, each with one entry for every element of its list: the counts, inputs (implicit in the binary form), latches with next state and initial value, outputs, bad states, constraints, justice properties, fairness constraints, all gates below them each once with its operands, and symbols. Every literal is written with the code of its variable and its sign, the binary form numbers constant, inputs, latches and gates in this order with gates after their operands, and all is flushed. The comment comes last.",
 ["inputs"], "every circuit, every list of outputs, properties and symbols, both forms",
 "Tests write a few circuits; a section which is left out, out of order or wrong for one sign, constant or shared gate shows only for circuits which use it.",
 ["logic/aiger/aiger.go", "logic/aiger/dfs.go"],
 [("writers", "logic/aiger/aiger.go WriteAscii, WriteBinary"), ("roots", "logic/aiger/aiger.go roots"), ("traversal", "logic/aiger/dfs.go")],
 "disjunctive abstract interpretation over go/ssa: the sequence of tokens and loops which is written, one arbitrary iteration of each loop, against a description of the format",
 "All paths of both writers for arbitrary lists. Formatting and buffering by a model of fmt, strconv and bufio; integer coding of deltas is C10. The initial values of latches in the binary form are a known finding.")

prop("C36", "Added and learned clauses are stored whole and watched",
 "A clause which is added keeps every literal that is not already false, each once, also if other requests come before its end, and is only dropped if one of its literals is already true or it has complementary ones; a learned clause is kept as it is. The clause is stored ended and with its length behind the others, which move along unharmed when the memory grows, and it is watched by its first two literals, each watch naming the clause, the other literal and whether there are just two. An empty clause makes the problem unsatisfiable for good and a unit one is assigned, with the clause as its reason, at level 0.",
 ["inputs", "histories"], "every literal of every clause under every value and earlier occurrence, every length, every content and size of the clause memory",
 "A literal which is lost or a watch which refers elsewhere changes the problem only for clauses with particular literals under particular assignments, and shows as a wrong answer much later.",
 ["internal/xo/cdb.go", "internal/xo/cdat.go", "internal/xo/s.go"],
 [("adding", "internal/xo/cdb.go Cdb.Add"), ("learning", "internal/xo/cdb.go Cdb.Learn"), ("clause memory", "internal/xo/cdat.go CDat.AddLits, grow"), ("units", "internal/xo/s.go S.Add"), ("clause being added", "internal/xo/cdb.go Cdb.AddLits, Cdb.Unlink")],
 "disjunctive abstract interpretation over go/ssa, one arbitrary iteration per loop, linear arithmetic for the memory layout; effect analysis over the call graph for the literals of a clause not yet ended",
 "Inductive over the literals of a clause. Assumes that the caller backtracks to level 0 before a clause ends (checked) and that learned clauses have distinct literals.")

prop("C35", "Learned clauses follow from the conflict by resolution",
 "From a clause which is false, the analysis keeps every literal which is false since an earlier level (those at level 0 aside), replaces each literal of the current level but the last by the other literals of its reason, and puts the negation of the last one first; the level to go back to is the greatest of the kept literals. A kept literal is only dropped again if all other literals of its reason are kept or redundant themselves, and the first literal never. All notes about variables are cleared for the next conflict, so that no conflict depends on those before.",
 ["inputs", "histories"], "every literal of every clause and reason, every entry of the trail, every state of the notes",
 "A literal which is lost makes a learned clause too strong and removes models, but only for conflicts in which this literal matters, and the answer is wrong much later.",
 ["internal/xo/derive.go"],
 [("resolution", "internal/xo/derive.go Deriver.Derive"), ("minimization", "internal/xo/derive.go Deriver.minimize, isRdnt, isRdntRec")],
 "disjunctive abstract interpretation over go/ssa, one arbitrary iteration per nested loop, recursion by contract",
 "Inductive over the literals of a clause, the trail and the depth of the search for redundancy. Assumes that the implied literal is the first one of its reason and that only decisions have none (C21), and that variables assigned at level 0 stay so; the notes about those are never cleared.")

prop("C30", "Deactivating a literal removes every clause which depends on it",
 "A clause which is activated ends with the negation of its activation literal, and it and every learned clause are listed under each activation literal in them; deactivating a literal removes all clauses listed under it. An activation literal which is handed out is new or was deactivated before and has no value, and it is handed out once. All of this is done at level 0, outside of test scopes.",
 ["histories"], "every literal, every clause, every content of the lists, every assignment",
 "A clause which is not listed survives the deactivation, and a literal which is handed out twice or has a value switches foreign clauses on or off, but only in particular orders of activation, solving and deactivation.",
 ["internal/xo/active.go", "internal/xo/cdb.go", "internal/xo/s.go"],
 [("activation", "internal/xo/active.go Lit, ActivateWith, Deactivate"), ("learned clauses", "internal/xo/cdb.go Cdb.Learn"), ("entry points", "internal/xo/s.go Activate, ActivationLit, ActivateWith, Deactivate")],
 "disjunctive abstract interpretation over go/ssa, one arbitrary literal of the clause",
 "Assumes that callers deactivate a literal once and use activation literals only through the interface. Removing clauses from watches and memory is C15.")

prop("C33", "Sequential circuits keep inputs, gates, latches and constants apart",
 "A new latch has the initial value it is made with and itself as next value, and is listed once; setting its initial or next value changes exactly that, asking for either gives what was set last, and anything but true, false or unknown is refused as an initial value. The kind of every node is given as what it was made as, whatever its initial and next value or operands are; gates are not accepted as latches.",
 ["inputs", "histories"], "every kind of node, every initial value, every next value and sign, every operand of gates",
 "A latch is told from an input or a gate by its operands alone, so that particular initial values, or next values which are set later, change what it is taken for.",
 ["logic/s.go", "logic/c.go"],
 [("latches", "logic/s.go Latch, SetNext, SetInit, Next, Init"), ("kinds of nodes", "logic/s.go Type; logic/c.go Ins")],
 "abstract interpretation over go/ssa by kind of node, symbolic operands",
 "Assumes that gates have no constant operands and ordered ones (C03), and that a next value is a literal of the circuit. Making nodes is taken by contract (C03).")

prop("C01", "Copies are complete and share no memory with the original",
 "A copy of a solver, of a variable map, of a circuit or of a transition system has everything which the original has: each part has the value it has in the original, tables have the same elements in the same order, and parts which refer to each other refer to each other in the copy. No memory which the copy can reach and change belongs to the original, and copying changes nothing of the original, so that whatever is done to one of them afterwards is not seen by the other.",
 ["histories"], "every state of the original, whatever led to it, and every later history of either",
 "The tests copy fresh or small objects and mostly look at the copy only; a shared or forgotten table shows when the original changes afterwards, or when the state was not empty.",
 ["internal/xo/s.go", "internal/xo/vars.go", "internal/xo/cdb.go", "internal/xo/trail.go", "internal/xo/derive.go", "internal/xo/guess.go", "internal/xo/active.go", "internal/xo/cgc.go", "logic/c.go", "logic/s.go", "logic/aiger/aiger.go", "z/dv.go", "gini.go", "sv.go"],
 [("solver", "internal/xo/s.go S.Copy and what it calls, gini.go Copy, SCopy"), ("wrapped solver and variable map", "sv.go svWrap.SCopy, z/dv.go Vars.Copy"), ("circuits", "logic/c.go C.Copy, logic/s.go S.Copy, logic/aiger/aiger.go Copy")],
 "disjunctive abstract interpretation over go/ssa of the copy operations, comparing the two heaps and searching for shared memory",
 "Field by field and for all tables, with inductive treatment of the loops over rows. Not copied by design, and exempt: locks, asynchronous handles, observers, times, statistics (integers which nothing but themselves and reports read) and three scratch fields. The simulated random solver of package gen is not covered.")

prop("C11", "A background solve gives its result exactly once, and requests never hang",
 "A solve started in the background gives its result exactly once: stopping it, waiting for it, or waiting with a time limit returns that result, testing for it never waits and says done exactly when it returns the result, and no request can wait for ever because the solve has ended in the meantime. A stop request ends the solve and a pause request holds it until it is resumed; a solver may be copied while it is paused, and at no other time during a solve. Every lock which one of these operations takes is released when it returns.",
 ["schedules", "histories"], "every interleaving of the requests with the solve, in which they are made one at a time as documented",
 "The tests use one request per solve at times which a sleep chooses; a lost result, a doubled lock or a request which meets the end of the solve needs a particular interleaving.",
 ["internal/xo/ctl.go", "internal/xo/s.go"],
 [("handle", "internal/xo/ctl.go Stop, Wait, Try, Test, Pause, Unpause, TryStats"), ("poll in the search", "internal/xo/ctl.go Tick"), ("goroutine", "internal/xo/s.go GoSolve"), ("run lock", "internal/xo/s.go lock, unlock, Copy")],
 "typestate analysis of channel and lock operations by disjunctive abstract interpretation over go/ssa",
 "Channel by channel and lock by lock on every path of every operation; that the search polls often enough is C12, and how soon it ends is C52 (not applicable).")

prop("C12", "A solve gives up only when its time is over or it is asked to",
 "A solve answers unknown only if it has a time limit which is over or a stop was requested, and when it notices either it ends. A time limit holds for the call which sets it, runs for the duration given, and never for a later solve, a new solver or a copy. As long as the search runs it looks for requests, and for its limit if it has one, again after an amount of propagation which does not grow, even when statistics are read and reset while it is paused.",
 ["histories", "schedules"], "every history of solves with and without limits, every moment at which requests are made",
 "The tests use one limited solve with generous limits, and stop solves which are young; a limit which stays, or polls which become rarer, shows only in what comes later.",
 ["internal/xo/s.go", "internal/xo/trail.go", "internal/xo/ctl.go"],
 [("time limit", "internal/xo/s.go Try, NewSCdb, Copy"), ("poll in the search", "internal/xo/s.go Solve"), ("work counted", "internal/xo/trail.go Prop")],
 "disjunctive abstract interpretation over go/ssa with symbolic times of the search, run on every state of the limit which the constructors and calls leave",
 "The amount of propagation between two looks is bounded by constants of the program; how much time it takes is C52 (not applicable). A conflict does not count as an opportunity to look, as the search cannot meet conflicts for ever without a decision.")

prop("C20", "DIMACS text is read exactly as it is written, or refused",
 "Reading a CNF, an incremental CNF or a solver's output passes on every literal once, with its sign, as a clause literal, assumption or value as the text says, in the order of the text, and tells of the end once; the counts of a problem statement are passed on as they are written, and lines of comments are left out without touching others. Text which is malformed, truncated within a statement, out of range or which cannot be read is reported as an error, and well formed text is not refused. When strictness is asked for, a formula is accepted exactly if it has a problem statement and its largest variable and number of clauses are those stated.",
 ["inputs", "fault_sequences"], "every text, however it is cut into chunks by its source, and a read error or end at every byte",
 "A sign, digit, clause end or the beginning of a line which is mishandled changes the problem only for particular texts or chunk boundaries; tests read a few small files from memory.",
 ["dimacs/cfilt.go", "dimacs/cnf.go", "dimacs/icnf.go", "dimacs/int.go", "dimacs/lit.go", "dimacs/solve.go"],
 [("comments", "dimacs/cfilt.go CommentFilter.Read"), ("integer", "dimacs/int.go readInt"), ("cnf", "dimacs/cnf.go ReadCnf, ReadCnfStrict"), ("icnf", "dimacs/icnf.go ReadICnf"), ("output", "dimacs/solve.go ReadSolve")],
 "the comment filter is extracted from go/ssa as a transducer by abstract interpretation with symbolic bytes and shown bisimilar to the specified one; the readers are judged per path and for one arbitrary iteration of each loop against the grammar",
 "All paths. Chunks of up to three bytes from every reachable state of the filter (the filter treats bytes one by one; longer chunks repeat the same loop). Numbers inside a reader are abstracted to zero, a positive or a negative number once the integer reader is shown right. Tolerances of the lenient mode (a last clause which is left open at the end of the text, negative counts) are not judged.")

prop("C34", "AIGER files are read exactly as they are written, or refused",
 "Reading an ASCII or binary AIGER file which is accepted gives the inputs, latches with their initial and next values, outputs, bad states, constraints, justice and fairness properties, gates and names which the file describes, each once, in the order of the file, negated where the file says so. A file is refused with an error if it is truncated or malformed within its header, its sections or its names, if its counts do not fit, a literal is out of range or undefined, a definition is negated, a variable of an ASCII file is defined more than once or depends on itself, or if it cannot be read. A file which follows the format is not refused.",
 ["inputs", "fault_sequences"], "every text and a read error or end at every byte",
 "A literal, count or reset value which is mishandled changes the circuit only for particular files; tests read a few small examples.",
 ["logic/aiger/aiger.go"],
 [("number", "logic/aiger/aiger.go readUint"), ("header", "logic/aiger/aiger.go readHeader"), ("sections", "logic/aiger/aiger.go ReadAscii, ReadBinary and the readers of the sections"), ("results", "logic/aiger/aiger.go aigerReader.commit, mapAnds"), ("refusals", "logic/aiger/aiger.go ReadAscii, ReadBinary"), ("gates", "logic/aiger/aiger.go aigerReader.mapAndsRec")],
 "abstract interpretation over go/ssa with symbolic bytes and numbers: every path of the readers and one arbitrary iteration of each of their loops is compared with the description of the format, and every refusal is traced to a reason the format gives",
 "All paths. Numbers inside the readers are abstracted to zero, one or an arbitrary literal of either sign once the reader of numbers is shown right; the byte coding of binary deltas is C10. Bytes at the beginning of lines after the gates which begin neither a name nor a comment are skipped by the readers; this tolerance and the text of comments are not judged. That the gates of ASCII files are all reached rests on the depth first visit being called for each.")

prop("C37", "The public solver does exactly what its engine does",
 "Every operation of the public solver carries out the one operation of its engine which it stands for, once, with the arguments the caller gave and in their order, and passes on what the engine answers without a change or anything else being done to the problem. A literal is reported true exactly if the last assignment makes that literal true. A solver made from a text has exactly what was read from it, and an error of reading it is reported.",
 ["inputs", "histories"], "every call of every operation, in every state of the solver",
 "A wrapper which drops an argument, an answer or a call in some case only shows for callers in that case; tests call each operation in a few ways.",
 ["gini.go", "internal/xo/dimacs.go", "internal/xo/s.go"],
 [("operations", "gini.go Gini.*, internal/xo/dimacs.go DimacsVis.*, internal/xo/s.go S.Value, S.MaxVar")],
 "abstract interpretation over go/ssa of every exported operation with the engine's operations as opaque events: each path is compared with the single call it stands for",
 "All paths of the listed operations, arguments symbolic. What the engine's operations do is the subject of other properties.")

prop("C09", "A CRISP client and server agree on every request",
 "For every request, the server reads exactly what the client writes, carries out the solver operation which the request stands for with the very literals it received, and answers what the client then reads; truth values and lists arrive as they were sent. The server refuses, with the error which says why and by ending the connection, exactly the requests which are unknown, out of order, or about a result there is not, and after an end or reset nothing of the solve before is left. Neither side waits before it has sent what it wrote, every failure of the connection is reported, and a solve in the background yields its result exactly once, stopped or not.",
 ["inputs", "histories", "fault_sequences"], "every request, every list and number on the wire, every state of the last solve, every point at which the connection fails, either outcome of a poll",
 "Requests in an unusual order, failures in the middle of an answer, and lists of unusual lengths are not sampled by tests, which hold a few ordinary conversations over a socket.",
 ["crisp/handler.go", "crisp/client.go", "crisp/netsolve.go", "crisp/vu32io.go", "crisp/proto.go"],
 [("server", "crisp/handler.go Handler.Crisp and what it calls, serveConn"), ("client", "crisp/client.go Client.*"), ("background solves", "crisp/client.go GoSolve, crisp/netsolve.go"), ("lists", "crisp/vu32io.go send, recv"), ("codes", "crisp/proto.go")],
 "abstract interpretation over go/ssa of every path of each request on both ends, with the words on the connection, the solver's operations and the channels as events; bit packing by residues",
 "All paths of one request from an arbitrary state; one arbitrary iteration of each loop. Integer coding and buffering are C10. How connections are accepted and handed to handlers is not judged, nor are bounds on what a hostile peer may announce.")

prop("C38", "The clause memory is walked and written clause by clause",
 "The next clause of any clause is the one stored right behind it, and a visit of all, of the added or of the learned clauses sees each of them exactly once, with its place, its header and all of its literals in order, and nothing of another clause. A written problem has one header with the number of variables and of the clauses which follow, and then every clause with its literals and a final zero. Every failed write is reported, and nothing is written after it.",
 ["inputs", "fault_sequences"], "every clause memory, every length of a clause, every point at which a write fails or is short",
 "Clauses whose length exceeds what the header can hold and writes which fail or are short in the middle are not in the tests.",
 ["internal/xo/cdat.go", "internal/xo/cdb.go"],
 [("walk", "internal/xo/cdat.go CDat.Next, Load, Forall"), ("visits", "internal/xo/cdb.go Cdb.ForallSlice, ForallAdded, ForallLearnts, Forall, Lits"), ("writing", "internal/xo/cdat.go CDat.Dimacs, internal/xo/cdb.go Cdb.Write")],
 "abstract interpretation over go/ssa of every path, with the memory as an arbitrary table and one arbitrary iteration per loop; the places are compared as linear terms, the text is normalised by what it denotes",
 "That clauses are stored the way the walk expects is C36 and C15. Clauses which are removed but not yet compacted are visited too.")

prop("C29", "Inner and outer variables are kept apart and mapped one to one",
 "However requests are interleaved, every outer variable is mapped to one inner variable of its own for as long as the map lives, the way back gives that very variable, and literals keep their sign. A variable which the application asks for is never null, never that of an outer variable, and never given a second time unless it was freed; on the way out it is left out. A solver which uses such a map asks its engine with translated assumptions, without touching the caller's list, and translates back what the engine gives.",
 ["histories", "inputs"], "every history of requests, every literal, every list",
 "The tests use one random interleaving without freeing in between lookups, and never the wrapping solver.",
 ["z/dv.go", "sv.go"],
 [("map", "z/dv.go Vars"), ("solver", "sv.go svWrap")],
 "abstract interpretation over go/ssa of every path, with tables of arbitrary contents; loop invariants on the lengths are guessed from the loop's entry and checked; first iterations are taken apart",
 "That clauses and fresh literals pass through the wrapping solver untranslated is taken as intended. Copies are C01.")

prop("C18", "A pool answers each request once, from a solver running that request alone",
 "Every request which a pool of solvers accepts is answered exactly once while the pool is not stopped, with the result of one solve under just that request's assumptions, a full model or a reason exactly when there is one and it was asked for, the number of the unit which ran it and the number of requests still pending. A unit is never given a request while it has one, solvers are copied only while they are idle and never beyond the agreed number, and a request with a time limit ends with it. After Stop every unit is cancelled and its solve ended, whatever it was waiting for; requests get distinct numbers and their own copy of the assumptions from any number of goroutines.",
 ["schedules", "histories"], "every order in which requests, responses, time limits and Stop can meet, any number of units",
 "The tests make a few random requests and look at some results; which unit is free, who waits for whom and what is answered late depends on the schedule.",
 ["ax/ax.go", "ax/req.go"],
 [("dispatcher", "ax/ax.go ax.serve"), ("unit", "ax/ax.go unit.handleReq"), ("client", "ax/ax.go ax.Ex"), ("requests", "ax/req.go RequestGen")],
 "disjunctive abstract interpretation over go/ssa of one arbitrary iteration of the dispatcher and of every path of a unit's goroutine, with channel operations, solver calls and list changes as events judged against the protocol",
 "The solvers are taken to keep their interface (C11, C24). Calling the client's operations after Stop is not covered; that a response reaches the client needs the client to receive.")

prop("C39", "AIGER objects list and name exactly what is put into them",
 "An AIGER object made for a circuit lists every input of it and exactly the given outputs, in memory of its own; a new input is a fresh input of the circuit and is listed, and a further output is added at the end of the list. A name is entered for an input, latch, output, bad state, constraint, justice or fairness property exactly if its number is one of this kind and the name has no line break, and otherwise an error is reported and nothing changes. It is read back for the same kind and number only.",
 ["inputs", "histories"], "every circuit, every kind, number and name",
 "A test names a few items; wrong bounds or a table used for two kinds only show for the number one past the end or when two kinds use the same number.",
 ["logic/aiger/aiger.go"],
 [("the naming operations of each kind", "logic/aiger/aiger.go:131"), ("new inputs and outputs", "logic/aiger/aiger.go:172"), ("the object for a circuit", "logic/aiger/aiger.go:56")],
 "abstract interpretation (go/ssa) with a model of the name tables: each operation is followed for every order of index and list length, with and without a line break; the loop over the circuit is decided for one arbitrary node",
 "no bounds; names are opaque values")

prop("C17", "Independent objects share no unguarded state",
 "Different solvers, circuits, generators, readers and connections may be used from different goroutines at the same time: package state which changes after the start of the program is only accessed under one lock, through a type which holds its own lock on every access, or atomically. Such a lock is given back on every path and is never taken by a call made while it is held. A setting which the handlers of a server share with it is only accessed atomically or under a lock.",
 ["schedules"], "every schedule of goroutines which use different objects",
 "An unguarded access shows only in a run in which two goroutines meet in it, and then often only as a wrong number.",
 ["gen/gen.go", "gen/color.go", "gen/cubes.go", "ax/req.go", "crisp/server.go", "crisp/handler.go", "logic/aiger/aiger.go"],
 [("package random source", "gen/gen.go:15"), ("package request generator", "ax/req.go:114"), ("tracing", "crisp/handler.go tracing")],
 "effect and escape analysis of every package variable and must-held lock sets over the call graph (go/ssa)",
 "The whole of every library package. The objects themselves are used by one goroutine at a time, except where C11 and C18 decide otherwise. Locks are identified by variable or by field and object expression.")

prop("C40", "The command prints the answer it got and nothing else",
 "For every combination of options and every input, the command makes all assumptions before it searches, searches within the timeout, prints exactly one result line which says what the search answered (and neither satisfiable nor unsatisfiable without an answer), prints the value of every variable or all failed assumptions exactly when asked to, and ends with the status which the answer prescribes. An input is read as what its name says it is. For an incremental input one result is printed for each set of assumptions, in order, about the clauses which precede it.",
 ["inputs", "configurations"], "every command line, every input and every answer of the solver, local or remote, monitored or not",
 "The command has no tests, and its options multiply: a result line lost or doubled for one combination, or a model line broken at the wrong variable, shows only in that run.",
 ["cmd/gini/main.go", "cmd/gini/icnf.go"],
 [("result line", "cmd/gini/main.go:147"), ("status", "cmd/gini/main.go:130"), ("model", "cmd/gini/main.go:216"), ("failed assumptions", "cmd/gini/main.go:243"), ("monitoring", "cmd/gini/main.go:305"), ("remote", "cmd/gini/main.go:330"), ("incremental input", "cmd/gini/icnf.go:63"), ("exchange of cubes", "cmd/gini/icnf.go:129")],
 "abstract interpretation (go/ssa) of the main function and of the icnf visitors with every option, file name and answer, comparing what is printed on each path with what was answered",
 "All options, two inputs' worth of file-name forms, at most two monitoring results before the stream ends (only the last one counts), one arbitrary iteration of every printing loop. The solver, the server connection and the exchanger are represented by what C09, C11, C18 and C24 establish; package flag and the decompressors are trusted. Comment lines on standard error are not judged.")

na("C50", "Solver answers are sound and complete",
 "If the solver answers satisfiable, the values it reports satisfy every added clause and every assumption; if it answers unsatisfiable, no assignment does. The set of failed assumptions it reports is inconsistent with the clauses.",
 ["inputs", "histories"], "every formula, every sequence of incremental calls",
 "Tests sample formulas; a wrong answer needs a particular search history.",
 ["internal/xo/s.go", "internal/xo/cdb.go", "internal/xo/derive.go"],
 [("conflict driven search", "internal/xo/s.go Solve")],
 "Functional correctness of CDCL (learning, minimisation, garbage collection together) quantifies over search histories and clause contents; no static argument in reach proves it. Necessary structural parts are claimed separately: watch retention, relocation, backtracking, capacity, assumption handling.")

na("C52", "Search terminates and effort limits are respected in time",
 "Every call to the solver ends, and a call with a time limit ends close to the limit.",
 ["schedules", "inputs"], "every formula, every limit, every machine load",
 "Tests use generous limits on small formulas.",
 ["internal/xo/s.go", "internal/xo/luby.go"],
 [("restart schedule", "internal/xo/luby.go"), ("ticks", "internal/xo/s.go Solve")],
 "Termination of the search and wall-clock latency depend on run-time quantities (restarts, clause deletion, scheduling) for which there is no static bound.")
