"""What each check does, for its evidence file."""

COMMON = [
    "Interleavings are at the granularity of statements of the library (and, for C02, of the parser runtime); within a statement there is no switch.",
    "A data race is what the happens-before detector of the Go tool chain reports for the simulated schedule; the simulator's own hand-over of control is hidden from it.",
    "Sampled, not exhaustive: a quiet check is evidence for the runs it made.",
]
SIMMODEL = "The document model is a simulated one (real MapModel in a part of the runs): it records every call and injects the faults; callers, their threads, callbacks and the scheduler are simulated. "
REFNOTE = "The reference evaluator in sim/simcheck/path.go is trusted for the language the generator produces."

def d(q, t, rule, stubs=SIMMODEL, assumptions=None):
    return {"quick_s": q, "thorough_s": t, "rule": rule, "stubs": stubs, "assumptions": (assumptions or []) + COMMON}

DESC = {
    "C01": d(45, 600, "A case is a simulated run: 2-4 callers searching with shared paths over shared documents under one seeded schedule; non-trivial are runs with at least one switch between callers and one match."),
    "C02": d(60, 900, "A case is a simulated run: 1-3 callers parsing, quoting and joining generated and mangled texts, from a cold (package state of a fresh process) or warm start, under one seeded schedule; non-trivial are runs with at least one switch, or histories of at least two calls.",
             "Callers and the scheduler are simulated; locks of the library and of the parser runtime are simulated ones that perform the real operation too."),
    "C03": d(45, 600, "A case is a simulated run: 1-3 callers composing paths from shared parts and searching with parts and results under one seeded schedule; non-trivial are runs with at least one composition."),
    "C04": d(35, 400, "A case is a simulated run: 1-2 callers whose model or callback panics or exits at a seeded call or match; non-trivial are runs in which a fault was injected into a search."),
    "C05": d(35, 400, "A case is a simulated run: a history of aborted and completed searches and parses by 1-3 callers; non-trivial are runs in which a search was aborted."),
    "C06": d(35, 400, "A case is a simulated run: 1-2 callers whose callbacks and model methods parse, compose and search, up to three deep; non-trivial are runs with a nested call."),
    "C07": d(35, 400, "A case is a simulated run: one document presented by a seeded model (listing order, node representation), 2-10 searches compared with the reference evaluator; non-trivial are runs with a match.", assumptions=[REFNOTE]),
    "C08": d(35, 400, "A case is a simulated run: 1-3 searches by 1-2 callers of a document that hooks at seeded calls and matches, and another caller, change; non-trivial are runs in which the document changed during a search."),
    "C09": d(35, 400, "A case is a simulated run: searches of a document whose model lists members that are absent or answers lookups with absence, or which changes; non-trivial are runs with an absent answer or a change.", assumptions=[REFNOTE]),
    "C10": d(35, 400, "A case is a simulated run: searches of static, changing or failing documents, every model call checked; non-trivial are runs with a match."),
    "C11": d(30, 300, "A case is a simulated run: a search during which the enumerated container grows at every match or every few model calls; non-trivial are runs in which it grew.",
             assumptions=["Bounded means: at most 60000 model calls and 100000 matches for documents of at most 10 nodes and searches that take at most 150 calls without growth."]),
    "C12": d(35, 400, "A case is a simulated run: 1-3 callers that keep and overwrite delivered slices and paths; non-trivial are runs with a match."),
    "C13": d(35, 400, "A case is a simulated run: searches of a document that changes, without filters and negative indexes; non-trivial are runs in which the document changed during a search.",
             assumptions=["The count of ways a path leads to a node is computed from the names and indexes on the node's path by sim/simcheck/path.go."]),
    "C14": d(35, 400, "A case is a simulated run: 1-2 callers stalled at a seeded model call or match until nobody else can run, 1-2 others working; non-trivial are runs with a switch and a match."),
    "C15": d(35, 400, "A case is a simulated run: a history of searches and changes over 1-2 documents per caller with equal-looking nodes; non-trivial are runs with a change or several documents."),
    "C16": d(35, 400, "A case is a simulated run: a history of completed, nested and aborted calls by 1-4 callers; afterwards the harness lets go of the documents and everything still reachable is held by the library; non-trivial are runs with a search."),
    "C17": d(30, 300, "A case is a simulated run: 1-2 callers searching an unchanging document with filter-free paths, with failures, stalls and nested searches at seeded calls and matches; non-trivial are runs with a match.", assumptions=[REFNOTE]),
    "C18": d(40, 400, "A case is a simulated run: 1-3 callers that make document paths from shared delivered ones and from each other's, during and after searches; non-trivial are runs in which a caller made two."),
    "C19": d(35, 400, "A case is a simulated run: 1-4 callers whose models and callbacks take from milliseconds to weeks of simulated time at seeded calls and matches, and who come back after such times; non-trivial are runs in which time was made to pass."),
    "C28": d(35, 400, "A case is a simulated run: 1-2 callers searching documents of which many or all nodes that the paths do not lead into fail, or never answer, when they are read, and change all the time; non-trivial are runs with such nodes and with a match.", assumptions=[REFNOTE]),
    "C27": d(35, 400, "A case is a simulated run: 1-2 callers searching documents whose models give wrong answers at seeded calls (wrong or unknown types, wrong lengths, keys listed twice or left out, members from elsewhere, values of any Go type), and searches that are answered rightly beside and after them; non-trivial are runs with a wrong answer."),
    "C29": d(40, 400, "A case is a simulated run: 1-3 callers that repeat a seeded pattern of calls, with panics of the model and the callback and nested calls, each time with other documents, texts and keys, between measurements of the live heap; non-trivial are runs in which it was measured twice.",
             assumptions=["Without bound means: more live objects or bytes after every doubling of the rounds, until there were at least 8000 of them. What is kept of that many calls counts as unbounded."]),
    "C30": d(35, 400, "A case is a simulated run: 1-4 callers (up to 300 in some) searching shared documents after, beside and within other searches, some of them aborted or made a thousand times, and each search's model calls and steps counted; non-trivial are runs with a match.",
             assumptions=["Steps are statements of the library that were passed. More than 8 times those of the search alone, and 3000, counts as more; every call of the model beyond those of the search alone counts."]),
}
