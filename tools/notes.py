"""Technique and level notes per property, used by tools/manifest.py."""
GENERAL = "All checks build coco.c from /repo/src (amalgamated out of tree) and drive it through its public API; see DESIGN.md."
NA = {}
SEQ = "bounded exhaustive exploration of the real code against a reference model"
NOTES = {
 "C01": (SEQ, "every option/instance string of the grammar up to the bound and every interleaving of two iterations is run on the real suite code and compared with an independent model of the selection"),
 "C02": (SEQ, "every index and triple of every explored selection through all three access paths"),
 "C03": (SEQ, "every sequence of evaluate / constraint / recommend / query calls up to the depth, on one problem of each kind and depth-2/3 histories on every function, compared call by call with a counter model"),
 "C04": (SEQ, "every interleaving up to the depth of operations on two live problems and the life of a third; every value compared bit by bit with the one a fresh process gives"),
 "C05": (SEQ, "every problem of the explored suites/dimensions/instances: the complete grid (2-D, 3-D) and every line and corner pattern around the declared optimum are evaluated"),
 "C06": (SEQ, "every problem of the explored suites/dimensions/instances against recorded fingerprints of the pinned commit and against the base suites at the same points"),
 "C07": (SEQ, "every history of calls, attachments and removals up to the depth on an observed and an unobserved twin"),
 "C08": (SEQ, "every evaluation history up to the depth over values straddling targets under every option setting; complete files compared with a model of the logger"),
 "C09": (SEQ, "every interleaving of restart signals, recommendations and evaluations up to the depth; complete files compared with a model of the logger"),
 "C10": (SEQ, "every sequence of runs up to the depth, one and two observers, every order of freeing; the complete result folder compared with a model"),
 "C11": ("exhaustive crash-point exploration of the real code", "the process is killed at every file operation and inside every write of every explored experiment; surviving files are compared with the promised prefix"),
 "C12": ("exhaustive exploration of process interleavings of the real code under a controlled scheduler", "every interleaving of the file-system operations of two (three in the thorough tier, bounded preemptions) processes and every explored pre-existing tree"),
 "C13": (SEQ, "every sequence of additions over a grid of objective vectors, with queries at every position, compared with a brute-force archive"),
 "C14": (SEQ, "every evaluation/recommendation history up to the depth over objective vectors around the ideal/nadir box, under every logging option; complete files compared with a model of the bi-objective logger"),
 "C15": (SEQ, "every explored run's archive is fed back (all solutions, with and without gaps, several problems) and the files compared with those of the original run and with the model"),
 "C16": (SEQ, "every legal order of create/attach/evaluate/restart/recommend/free operations up to the depth, for every suite and observer kind, and option-string scripts, under AddressSanitizer/UBSan (and again, one operation shorter, under MemorySanitizer) with live-heap accounting at the end of each history"),
 "C17": (SEQ, "every order up to the depth of disclose, attach, detach, evaluate, recommend and query on two problems, against a model of the taint flags; nothing may be logged for a tainted problem"),
 "C18": (SEQ, "every draw after a reset for all 30 functions against a reference implementation of the generator and noise models; every interleaving up to the depth of noisy/noise-free evaluations, resets and other activity; bbob logs of every evaluation history judged by noise-free values"),
 "C19": (SEQ, "every integer variable over values around every integer and every rounding boundary, for all functions and dimensions of both suites over the explored instances, compared with a model of shape, rounding and mapping"),
 "C20": (SEQ, "every problem of the explored suites, dimensions and instances: start point, bounds, constraint counts and activity, and values over a complete set of points inside and outside of the domain"),
 "C21": (SEQ, "every option with every kind of value, all ordered pairs (and triples), rotations of the whole set and malformed strings, in several spellings; the complete result folder compared with the models of the observers"),
 "C22": (SEQ, "all interleavings of draws from several generators around every refill of the state, and long sequences for every listed seed, compared draw by draw with a reference implementation"),
 "C23": (SEQ, "every sequence of Python operations up to the depth on suites, problems, iterators and observers (valid and invalid, with destruction by del and by free), every problem of the explored suites and complete experiment loops, run on cocoex built from the working tree under AddressSanitizer and compared answer by answer and file by file with the C library driven through the corresponding C calls"),
 "C24": (SEQ, "every history of tracked trials and queries up to the depth over functions, dimensions, instances, outcomes and lengths, for every explored budget and number of successes, compared query by query with a model of the stopping rule"),
 "C25": (SEQ, "every number of batches and every batch number up to the bound over every suite layout and every explored presentation (sweeps, subsets, interruptions, repetitions); the batches are checked to be a partition that keeps instances together"),
 "C26": ("bounded exhaustive exploration of the real code with exhaustive fault injection", "every tree of files, directories, links and permissions up to the bound, in every spelling of its path, with every single and every persistent failing directory operation; the file system compared with the promised one"),
 "C27": (SEQ, "every evaluation history up to the depth under every combination of the rw options; complete files compared with a model"),
 "C28": (SEQ, "every sequence of values (all orders of values above, at, between and below targets, zero, negative and not finite) up to the depth under every explored option setting and sequence of runs; the complete file compared with a model of the targets"),
 "C29": (SEQ, "every sequence of calls up to the depth through the Java classes (built from the working tree with the JNI library, under -Xcheck:jni), with invalid arguments, every problem of the explored suites and complete experiment loops; compared answer by answer and file by file with the C library driven through the corresponding C calls"),
 "C30": (SEQ, "every sequence of calls and drops up to the depth through the Rust crate (compiled from the working tree and linked with the C library under AddressSanitizer), with invalid arguments, every problem of the explored suites and complete experiment loops; compared answer by answer and file by file with the C library driven through the corresponding C calls"),
 "C31": (SEQ, "every sequence of calls up to the depth through the MATLAB functions (the gateway compiled from the working tree under AddressSanitizer against a stand-in for mex.h with exact-size arrays, the .m files read for what they pass on), with invalid arguments, every problem of the explored suites and complete experiment loops; compared answer by answer and file by file with the C library driven through the corresponding C calls"),
 "C32": (SEQ, "every dictionary of options up to the bound, in every order and way of construction, given to the real observers through as_string and compared file by file; every argument list, dictionary of settings, id sequence and duration up to the bound compared with a model"),
 "C33": (SEQ, "every sequence of evaluations, deliveries and resets up to the depth on the real cocoex, compared answer by answer and file by file with the C library observing what the model says is observed; every assignment of outcomes to the points of a random search up to the bound"),
}
