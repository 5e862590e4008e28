FLOW = "differential runtime monitor: native runs of generated programs that differ in one input, event logs compared, observed influence must be in the slice flowistry reports"
STATE = "runtime oracle over the live data structures of the analysis (hooked through its public API) on generated programs and real crates"
TABLE = {
    "C01": ("flow_checks", "run"), "C02": ("flow_checks", "run"), "C03": ("flow_checks", "run"),
    "C04": ("flow_checks", "run"), "C05": ("flow_checks", "run"), "C06": ("flow_checks", "run"),
    "C07": ("flow_checks", "run"),
    "C10": ("state_checks", "run"), "C11": ("state_checks", "run"), "C13": ("state_checks", "run"), "C14": ("state_checks", "run"),
}
TECH = {
    "C01": (FLOW, "explores seeded programs; main profiles data, mix; no claim beyond the programs and inputs run"),
    "C02": (FLOW, "explores seeded programs; main profiles ctl, early; runs that leave through different exits are not compared"),
    "C03": (FLOW, "explores seeded programs; main profiles ref, mix"),
    "C04": (FLOW, "explores seeded programs; main profiles call, mix, with generated callees; default (modular) mode"),
    "C05": (FLOW, "explores seeded programs with generated callees; Recurse mode"),
    "C06": (FLOW + "; plus the subset relations between the answers of the modes at sampled points of generated and real bodies", "explores seeded programs and real crates"),
    "C07": (FLOW + " (forward slices); plus an independent recomputation of the slices of sampled targets", "explores seeded programs and real crates"),
    "C10": (STATE + ": repeated and reordered analyses compared", "explores generated and real bodies"),
    "C11": (STATE + ": every state compared with that of an independent solver", "explores generated and real bodies"),
    "C13": (STATE + ": algebraic laws on every place", "explores generated and real bodies"),
    "C14": (STATE + ": mutations compared with a structural reading of the MIR", "explores generated and real bodies"),
}
NOT_APPLICABLE = {}
CLI = "runtime monitor of the real command line: answers of the built cargo-flowistry/flowistry-driver on generated crates, decoded and judged"
TABLE.update({"C15": ("ide_checks", "c15"), "C16": ("ide_checks", "c16"), "C17": ("ide_checks", "c17")})
TECH.update({
    "C15": (CLI + " against influences observed in native runs of the same functions", "explores seeded programs"),
    "C16": (CLI + " against range laws and the bodies known by construction", "explores seeded programs and cursor positions"),
    "C17": (CLI + " against the list of bodies known by construction", "explores seeded multi-file crates"),
})
TABLE["C23"] = ("ide_checks", "c23")
TECH["C23"] = (CLI + " against the documented protocol", "explores a fixed set of workspaces, all option combinations and seeded positions")
TSX = "runtime monitor of the editor extension's own code, bundled and run against a stand-in editor"
TABLE.update({"C21": ("ts_checks", "c21"), "C22": ("ts_checks", "c22"), "C24": ("ts_checks", "c24")})
TECH.update({
    "C21": (TSX + ": lookups and greyed-out ranges compared with a direct reading of the definition", "explores seeded documents, ranges and selections"),
    "C22": (TSX + ": every decoration of random event histories with late and failing replies compared with the one the current text calls for", "explores seeded histories"),
    "C24": (TSX + ": processes started and results returned compared with the arranged layout and outcome", "explores seeded layouts and outcomes"),
})
TABLE["C08"] = ("prec_checks", "run")
TECH["C08"] = ("runtime oracle over the answers of the real analysis: on generated programs each reported dependency is judged by a source-level reference slicer, itself cross-checked against native runs", "explores seeded programs of the stated fragment; default mode")
TABLE["C18"] = ("ifc_checks", "run")
TECH["C18"] = ("runtime monitor of the real cargo-ifc: reports on generated functions judged against influences observed in native runs (leaks) and against a reference slicer (no leak)", "explores seeded programs with one secret and one sink each")
TABLE["C19"] = ("total_checks", "run")
TECH["C19"] = ("runtime monitor (panics, aborts, time and memory limits) over every query of the real analysis and over the real command line", "explores seeded programs, hand-written rare constructs, crates of the local registry, and core and alloc of the toolchain")
TABLE["C20"] = ("asan_checks", "run")
TECH["C20"] = ("AddressSanitizer (with stack-use-after-return and the standard library's unsafe-precondition checks) on the real analysis", "explores the same code as C19")
TABLE["C09"] = ("meta_checks", "run")
TECH["C09"] = ("metamorphic runtime monitor: the flow states the real analysis computes for a function, and the focus answer of the real command line, compared between versions of the program that differ elsewhere and between orders of analysis", "explores seeded programs and real crates; callee bodies, order, added and removed items, local names and layout are varied")
TABLE["C12"] = ("alias_checks", "run")
TECH["C12"] = ("runtime monitor: addresses of variables and pointer targets logged in native runs, each observed designation compared with the alias sets the real analysis reports", "explores seeded programs; pointers that user variables, their fields and what they point to hold; arrays of pointers by their first element")
TABLE.update({"C25": ("ts_checks", "c25"), "C26": ("ts_checks", "c26")})
TECH.update({
    "C25": (TSX + ": what the user is shown and what leaves the machine compared with the outcomes arranged", "explores seeded histories"),
    "C26": (TSX + ": the steps of every start compared with those the arranged situation calls for", "explores seeded situations (all combinations of failing steps)"),
})
