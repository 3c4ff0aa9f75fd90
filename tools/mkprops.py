"""Writes properties.jsonl (kept as a script only so that the long texts stay reviewable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=hook)))

EM="dreimac/emcoords.py"; TC="dreimac/toroidalcoords.py"; CC="dreimac/circularcoords.py"; CP="dreimac/complexprojectivecoords.py"
PC="dreimac/projectivecoords.py"; LC="dreimac/lenscoords.py"; UT="dreimac/utils.py"; PL="dreimac/plotting_utils.py"; CB="dreimac/combinatorial.py"
ALL=[EM,TC,CC,CP,PC,LC,UT]

p("C01","Queries are independent of what was asked before",
 "Every query on a coordinates object (circular, toroidal, real or complex projective, or lens coordinates; representative cocycles; cover radius; covering partition) and every stateless utility returns what the same call returns in a brand-new process on the same data, whatever sequence of earlier calls preceded it: successful ones, ones with other arguments, ones that were rejected with an exception, ones on other objects. The same holds when a user-supplied bump function calls back into the object in the middle of a query.",
 ["histories","inputs"],"all sequences of public calls on any number of objects in one process, including rejected calls and re-entrant calls from callbacks",
 "The tests build one object and make one call on it; no test makes a second query on the same object, none mixes arguments, classes or failing calls, so no history longer than one is ever exercised.",
 ALL,[("cocycles, diagrams and distances are computed once in the constructor and only read by queries",EM),("integer lift works on a copy, cover radius is returned from locals",EM+", "+UT)],
 [("cached cocycles/diagrams/distances","what later queries read","EMCoords.__init__")],["return value or exception type of each call"])

p("C02","Concurrent calls do not interfere",
 "When several threads call the library at the same time, on one shared coordinates object or on different ones and for whatever mix of queries and stateless utilities, each call returns exactly what it returns when it runs alone, or raises exactly what it raises when it runs alone, under every interleaving. No interleaving deadlocks.",
 ["schedules","inputs"],"all interleavings of 2-3 caller threads at line and bytecode granularity",
 "The test suite is single-threaded; no schedule with two live calls is ever executed.",
 ALL,[("queries keep their intermediate results in local variables","get_coordinates of every coordinates class"),("no module-level mutable state",UT)],
 [("object attributes written by queries","last cover radius, variance, Gram matrices","EMCoords.get_cover_radius, get_coordinates")],["return value or exception type of each call"])

p("C03","A failure inside a call reaches the caller and leaves nothing behind",
 "If a call is interrupted (KeyboardInterrupt), runs out of memory, or an underlying numerical routine or callback raises an unexpected error at any instant, that exception reaches the caller: the call never swallows it and completes with different coordinates. Afterwards the object, the caller's arrays and the rest of the library behave as if the failed call had never been made: every later call returns what it returns in a run without the fault.",
 ["crash_points","fault_sequences"],"every instant of every public call (including construction) x {interrupt, failed allocation, failing eigen-/least-squares-/integer-/persistence solver, failing callback}, followed by any later calls",
 "No test injects a failure; the only exercised path is the one where every allocation and solver call succeeds.",
 ALL,[("object state is only written in the constructor; queries are read-only",EM),("the eigen-solver fallback catches only non-convergence",UT+": EquivariantPCA.ppca")],
 [],["exception seen by caller","results of all later calls"])

p("C04","Caller data and returned results are never altered behind the caller's back",
 "No library call modifies any array or list passed to it, whether it succeeds, fails or is interrupted half-way. A result already returned never changes because of later calls, and a caller that overwrites its own input data after construction, or overwrites a returned result, never changes what later calls return, nor any other array it holds (helpers documented to hand back the array they were given excepted).",
 ["histories","crash_points","inputs"],"all sequences of calls interleaved with a caller that scribbles over its own inputs and over returned results, and with interruptions inside calls",
 "Tests never look at their inputs after a call, never keep a result across a second call and never write to a returned array.",
 ALL,[("landmark distances are copied out of the caller's matrix",EM),("cocycles are copied before being lifted or handed out",EM+", "+UT),("utilities allocate their results",UT)],
 [("distances, cocycles, diagrams held by the object","must not alias caller memory","EMCoords.__init__, get_representative_cocycle")],["byte images of all caller-owned arrays","results of later calls"])

p("C05","Example data sets are reproducible and leave the global random stream alone",
 "A sample-data generator called with the same arguments returns the same samples in every process, thread and history, whatever state the process-wide random generator is in and whatever other threads seed or draw from it meanwhile; an omitted seed of a generator documented to fall back on the number of samples means exactly that seed, and different seeds give different samples. A generator neither reseeds nor advances the process-wide random stream.",
 ["schedules","histories","inputs"],"all interleavings of generator calls with other users of the process-wide random stream, all prior states of that stream, all sequences of generator calls",
 "Tests call a generator once and never compare two calls; nothing else draws random numbers meanwhile.",
 [UT],[("each generator draws from its own seeded stream",UT+": GeometryExamples")],
 [("process-wide numpy random state","shared by all threads of the process","numpy")],["returned samples","process-wide random state before/after"])

p("C06","Coordinates realise the chosen class whatever the solvers choose",
 "For every data set, landmark count, class number (classes are numbered by decreasing persistence), scale and bump function, the coordinates returned are those of the documented construction for that class, up to the rigid symmetries of the target space (a rotation of the circle per connected component; a common isometry of projective or lens space; a sign, phase or root of unity per point). This holds whichever of its legal answers the persistence solver gives (order of landmarks, order of classes, order and orientation of simplices, any cohomologous representative) and whichever eigenvectors the eigen-solver picks.",
 ["configurations","inputs","fault_sequences"],"all legal answers of the persistence solver and of the eigen-solver, for all data sets, classes, scales and bump functions",
 "The tests run the one answer that the installed ripser/LAPACK happen to give and check shapes and coarse variance; wrong signs, wrong simplex orientation or an order dependence pass.",
 ALL+[CB],[("simplices are sorted with sign, cocycles reindexed to landmarks",UT),("classes sorted by persistence",EM),("coordinates formula is independent of the cover element chosen for a point",TC+", "+CP+", "+PC+", "+LC)],
 [],["returned coordinates, compared through invariants of the target's symmetries"])

p("C07","Integer lifting never silently yields a non-cocycle",
 "With the cocycle check left on, circular, toroidal and complex projective coordinates are always built from an integer cocycle that reduces to the chosen class modulo the prime; if no such cocycle exists, or the integer solver fails, is cut short or raises, the call raises an exception instead of returning coordinates. This holds for every feasible answer the integer solver may give, including answers that are only integral up to solver tolerance, and for any number of classes that need repair in one call.",
 ["fault_sequences","configurations","inputs"],"all primes, representatives whose naive lift is or is not a cocycle, all feasible solver answers, all solver failures",
 "One test repairs one class with the one answer HiGHS gives; solver failure, alternative answers, unliftable classes and calls in which two classes need repair are never run.",
 [TC,CP,UT],[("cocycle test, integer program, rounding, failure check",TC+", "+CP)],[],["returned coordinates compared with an exact integer-cohomology reference","exception"])

p("C08","Toroidal coordinates are a reduced, invertible recombination of the classes",
 "For several classes the rows returned are an integer recombination with determinant +1 or -1 of the circular coordinates of the individual classes in the requested list (each up to rotation), whatever order the classes are listed in and whatever the solvers choose. The recombination is reduced in the sense of the LLL algorithm for the Dirichlet inner product of the classes: successive rows are size-reduced and satisfy the exchange condition.",
 ["configurations","inputs","fault_sequences"],"all lists of 2-4 classes in all orders, all legal solver answers, all scales",
 "The tests check only that one norm does not grow on four fixed data sets; dropping a class, mixing rows or a reduction that does not reduce passes.",
 [TC,UT],[("Gram matrix of harmonic representatives, Cholesky, LLL, linear combination mod 2 pi",TC)],[],["returned rows"])

p("C09","Uncovered or corrupted points are contained",
 "A data point that no landmark covers at the chosen scale, because it lies too far away or because its distance readings were lost or corrupted (NaN or infinite), comes back as NaN and is counted in a warning. Every other point gets the coordinates it would get if those points were not in the data set, for all kinds of coordinates.",
 ["fault_sequences","inputs"],"all subsets of non-landmark points hit by displacement or corruption, all kinds of coordinates and reduction modes",
 "No test looks at points outside the cover (NaN rows would be visible only if values were inspected), and none feeds corrupted readings.",
 [EM,UT,TC,CP,PC,LC],[("denominator set to NaN and warning issued",EM+": get_covering_partition"),("uncovered columns excluded from the eigen-decomposition",UT+": EquivariantPCA.ppca")],[],["returned coordinates","warning"])

p("C10","Diagnostics never change results",
 "Turning verbose output on changes nothing about any result. This holds for every behaviour of the clock (jumping forwards or backwards, standing still, returning NaN) and of the output stream: if writing a message fails, the call either raises that failure or returns the right result, and later calls are unaffected.",
 ["fault_sequences","configurations"],"verbose on/off x all clock behaviours x output failures at any write",
 "Tests that set verbose never compare with a quiet run, use the real clock and a working stdout.",
 [EM,UT],[("verbose only guards prints",EM+", "+UT)],[],["results with verbose on/off"])

p("C11","Results do not depend on the execution environment",
 "The same call on the same data gives the same result (up to floating-point rounding and the target's symmetries) whether numeric kernels are compiled or interpreted, whatever freshly allocated memory happens to contain, whatever the hash seed, and however large the data: in particular complex projective coordinates keep their phases.",
 ["configurations","inputs"],"compiled and interpreted kernels, all contents of uninitialised memory, all hash seeds, all data sizes",
 "The tests run one environment and compare with nothing.",
 ALL+[CB],[("kernels only read what they were given and write every entry that is later used",UT+", "+TC+", "+CP)],[],["results of the same call in differently configured simulated processes"])

p("C12","Plot helpers draw only on the axes they are given",
 "A plotting helper that is given axes adds its artists to exactly those axes (and returns those axes if it is one of the helpers that return axes), and never creates, selects, closes or draws on any other figure or axes, whatever figures other parts of the program create, select or close in between and under every interleaving with other plotting threads. Without axes it draws everything on one axes, the axes current when it is called (with other threads selecting axes meanwhile: axes that were current at some moment during the call).",
 ["schedules","histories"],"all histories and interleavings of several plotting sessions sharing the process-wide figure registry",
 "The plotting module is only imported by the tests; no helper is ever called.",
 [PL],[("ax or plt.gca()",PL)],[("pyplot figure registry","process-wide current figure/axes","matplotlib.pyplot")],["artists per axes","list of figures","current figure and axes"])

p("C13","Process-wide settings are left as found",
 "Neither importing the library nor any call, on any of its outcomes (success, rejection, injected failure or interruption at any instant), leaves process-wide settings changed: numpy's floating-point error handling, print options and random state, Python's warning filters, random and decimal state, recursion limit, environment, working directory, standard streams, matplotlib's settings and figure registry, the set of running threads and open files.",
 ["crash_points","histories","fault_sequences"],"every public call x every outcome x every interruption point",
 "No test looks at process-wide settings, and no test interrupts a call.",
 ALL+[PL],[("the library does not touch process-wide settings",", ".join(ALL))],[],["snapshot of process-wide settings before/after"])

p("C14","Every query ends within a bounded amount of work",
 "Every query either returns or raises within an amount of work bounded by the size of its input, once any injected solver faults have been delivered: lattice reduction, dimension reduction and integer lifting never loop forever, and a class without integral lift is rejected.",
 ["inputs","fault_sequences"],"all data sets, argument combinations, legal solver answers and solver failures",
 "Tests run a few benign inputs to completion and cannot see a loop that does not end for others.",
 [TC,UT,CP],[("LLL progress condition",TC),("loops over decreasing dimension",UT+": EquivariantPCA.ppca"),("integer solver call",TC+", "+CP)],[],["simulated step count of each call, solver node count"])

p("C15","Objects survive being copied, saved and restored",
 "A coordinates object that is copied or pickled at any moment after its construction (between calls, after a rejected or interrupted call, or while a query on it is in progress, whatever bump functions were used) and read back, in the same process or in a new one after the first was killed, answers every query exactly as a new object built from the same data does. Neither the copying and saving nor what else the restoring process has done with other objects changes the answers of the original, of the copy or of any other object.",
 ["crash_points","histories"],"all chains of processes (build, query, save, kill, restore, query, save again ...), all instants of a query at which the object is saved, all classes of coordinates and input layouts",
 "No test copies, pickles or restores an object, and none runs more than one process.",
 [EM,TC,CC,CP,PC,LC],[("the object keeps plain arrays and numbers only; everything a query needs is an attribute of the object",EM+", "+TC+", "+CP)],
 [("cocycles, diagrams, distances, lookup table","what must survive","EMCoords.__init__, ToroidalCoords.__init__, ComplexProjectiveCoords.__init__")],["return value or exception type of each call on the restored object"])

p("C16","The ingredients of a query that an object shows are the true ones",
 "The persistence diagrams an object publishes hold exactly the intervals the persistence solver found, ordered by decreasing persistence in every positive dimension. The representative cocycle it returns for a class comes with the birth and death of the class of that rank and represents it, in landmark numbering, for every scale at which the class is alive; classes that do not exist are rejected. The cover radius is half the threshold that lies at the fraction perc of the documented range, and a class too short for a cover is rejected. The covering partition gives each point that some ball contains the normalised values of the bump function, supported in the balls that contain it, and the first of these balls; a point in no ball (too far away, or its readings were lost) gets NaN and is counted in a warning. This holds whatever legal answer the persistence solver gives, whichever readings are lost, and whatever was asked before.",
 ["inputs","fault_sequences","histories"],"all data sets and input forms x all legal answers of the persistence solver (order of landmarks, classes and simplices, orientation, representatives) x lost or corrupted readings x short histories of queries",
 "The tests look at coordinates only, with the one answer the real solver gives (classes mostly already in order, landmarks in the order of sampling, no reading lost).",
 [EM,UT],[("diagrams and cocycles are sorted together, vertices renumbered by landmark",EM+": EMCoords.__init__; "+UT+": reindex_cocycles"),("cover radius and partition of unity",EM+": get_cover_radius, get_covering_partition")],
 [("sorted diagrams and cocycles","numbering of classes","EMCoords.__init__")],["dgms_","return values of get_representative_cocycle, get_cover_radius, get_covering_partition"])

p("C17","Nothing outlives its use",
 "Once a program has dropped a coordinates object, the data it was built from, the bump functions and class lists passed to its queries and the results it got, the library keeps none of them alive, whatever the outcome of the calls was (success, rejection, injected failure or interruption at any instant, calls made in threads that have ended). The same holds for arguments and results of the stateless utilities. And the memory the library retains does not grow with the number of calls: a process can query one object, or call a utility, with ever new arguments for as long as it likes.",
 ["histories","crash_points"],"all histories of calls on any number of objects, with failures and interruptions inside calls and calls made from short-lived threads, followed by the caller dropping everything; arbitrarily long sequences of calls",
 "No test drops an object and looks whether it is gone, and none makes more than a few calls.",
 ALL,[("queries keep their intermediate results in local variables","get_coordinates of every coordinates class"),("no module-level mutable state",UT)],
 [("object attributes","all the state an object has","EMCoords.__init__")],["weak references after the caller dropped everything","memory in use after n and 2n calls"])

# --- not simulation targets -------------------------------------------------
p("C20","Simplex indexing is a bijection",
 "For every vertex count and dimension the index computed for a simplex is a bijection between simplices and 0..(number of simplices - 1), and the specialised edge/triangle versions agree with the general one.",
 ["inputs"],"all vertex counts, dimensions and simplices","One fixed table of five triangles is checked.",[CB],[("combinatorial number system table",CB)])
p("C21","Landmark sampling is farthest-point sampling",
 "Each landmark returned by the samplers is a point farthest from the landmarks before it, with the reported insertion radius and distances, for Euclidean, user-supplied and geodesic distances alike.",
 ["inputs"],"all point clouds, matrices, landmark and neighbour counts","No test calls the samplers directly.",[UT],[("greedy loop",UT+": GeometryUtils")])
p("C22","Projective, sphere and lens map utilities are the named geometric maps",
 "Rotations are orthogonal and take the given vector to the pole, stereographic and Hopf projections land on the stated spaces and respect the identifications of points, and lens-space points related by the group action map to the same place.",
 ["inputs"],"all points and poles","No test calls them.",[UT],[("formulas",UT+": ProjectiveMapUtils, LensMapUtils")])
p("C23","Circle-map arithmetic is arithmetic on the circle",
 "Offsetting, centring, combining and colouring circle-valued maps commute with full turns, stay in the stated ranges and are linear over the integers.",
 ["inputs"],"all circle-valued maps, offsets and integer matrices","No test calls them.",[UT],[("formulas modulo 2 pi",UT+": CircleMapUtils")])
p("C24","Example spaces have the stated geometry",
 "Generated samples lie on the named surface and generated distance matrices are symmetric, non-negative, zero on the diagonal and respect the identifications of the named space.",
 ["inputs"],"all sizes and shape parameters","Only sizes are checked, indirectly.",[UT],[("closed formulas",UT+": GeometryExamples")])
with open("properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
