N = "Covers the executions recorded in the evidence: random, hostile and stress workloads on small (occasionally larger) machines. "
REL = N + "Trusts the reference weight algebra and the relation oracle (harness/src/ref*.rs), which share no code with the library."
def rel(what):
    return (f"runtime monitoring: {what}, judged by an independent reference-relation oracle on generated workloads", REL)
def mon(what, note=""):
    return (f"runtime monitoring: {what}", N + note)
TECH = {
 "C01": mon("algebraic-law monitors over recorded semiring operations, plus a reference algebra", "Trusts the reference algebra."),
 "C02": mon("online model checker of edit histories (a model machine steps along with the real one; every stored property bit is compared with a recomputation after each step)", "Trusts the edit model in harness/src/hist.rs."),
 "C03": mon("recomputation monitor of every property bit claimed by edits, algorithms and files", "Trusts the property definitions in the harness."),
 "C04": rel("rational operations (stored and on demand)"),
 "C05": rel("composition under every filter, matcher and look-ahead variant"),
 "C06": rel("determinization with structural postconditions"),
 "C07": rel("epsilon removal with structural postconditions"),
 "C08": rel("minimization with a minimality oracle (partition refinement on the reference side)"),
 "C09": rel("weight and label pushing with postconditions on potentials"),
 "C10": mon("shortest distances against closed-form star-matrix distances of the reference algebra"),
 "C11": mon("n-best paths against exhaustive path enumeration"),
 "C12": rel("replacement (stored and on demand, every call/return label option)"),
 "C13": mon("trimming, topological and other reordering judged by graph oracles"),
 "C14": rel("reversal, inversion, projection, relabelling, sorting and maps"),
 "C15": rel("encoding, weight conversion and factoring"),
 "C16": mon("round-trip monitor over binary files, bytes and text with an independent layout decoder"),
 "C17": mon("fault injection into serialised input (truncation, bit flips, splices, huge counts) under memory and time limits, watching for crashes, hangs and wrong acceptance"),
 "C18": mon("stress of shared on-demand machines from many threads with injected delays and random access orders; every recorded answer is compared with the sequential one"),
 "C19": mon("interrupt-and-resume monitor: caches saved at random points, reloaded and finished, compared with the uninterrupted machine"),
 "C20": mon("symbol-table histories against a model table"),
 "C21": mon("path enumeration, membership and sampling traces against exhaustive enumeration"),
 "C22": mon("equality, isomorphism and equivalence verdicts against reference verdicts"),
 "C23": mon("accessor-agreement monitor across machine kinds"),
 "C24": rel("optimisation pipelines"),
 "C25": mon("shadow-model monitor of foreign-call histories with allocation tracking, natively and under AddressSanitizer", "Shadows are built by direct library calls."),
 "C26": mon("the real command-line program as a monitored process with file-system and argument faults", "Expected results are direct library calls."),
 "C27": mon("undefined-behaviour interpreter (Miri), AddressSanitizer and unsafe-precondition checks over workloads of the whole safe interface", "Miri covers the cases it had time to interpret; the sanitizers the larger workload."),
 "C28": mon("shadow-model monitor of Python call histories on the built extension", "Shadows are kept in Python by an independent model."),
 "C30": mon("drawings read back by an independent DOT parser and compared with the drawn machine"),
 "C31": mon("online trace monitor of queue call histories against a model of each discipline"),
 "C32": mon("online monitor of every matcher and reachability answer against a scan of the machine's specification"),
 "C29": mon("attached-table monitor over every operation", "Expected tables follow from the operation's kind."),
}
for i in range(1, 40):
    TECH.setdefault(f"C{i:02d}", mon("reference-model oracle over generated workloads"))
