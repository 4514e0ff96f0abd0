"""Writes /verif/MANIFEST.json from the checkers that exist in props/ and the reasons below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "abstract interpretation of the compiler's MIR (path-sensitive, symbolic text/sequence domain with linear inequalities)"
TECH = {
    "C01": ": effect analysis of what each edit records",
    "C02": ": inverse and frame obligations on recorded operations",
    "C03": ": stack-discipline typestate of history and groups",
    "C04": ": typestate of the saved mark over all mutators",
    "C05": ": effect and error-path analysis of file operations",
    "C06": ": effect analysis of callback calls against text changes",
    "C07": ": borrow-state typestate of shared cells over all paths",
    "C08": ": bounds guards on every cursor move",
    "C09": ": destination of every cursor move as a function of the text",
    "C10": ": content invariant of the gap buffer's storage",
    "C11": ": text effect of every edit",
    "C12": ": position resolution, loops solved by induction over clusters",
    "C13": ": unit (dimension) inference over integer dataflow",
    "C14": ": case analysis of comparisons",
    "C15": ": case analysis of range functions",
    "C16": ": case analysis of additions, text measures",
    "C17": ": iterator typestate and partition invariant",
    "C18": ": iterator typestate, slice adjacency, error propagation",
    "C19": ": representation invariant and list effects of every workspace method",
    "C20": ": effect analysis of buffer ids",
    "C21": ": path analysis of open_buffer against the list of buffers",
    "C22": ": dataflow of syntax definitions",
    "C23": ": dataflow of paths",
    "C24": ": comprehension form of the search loops",
    "C25": ": panic-site reachability (bounds, unwrap, arithmetic) over all public methods",
    "C26": ": effect analysis and value of accessors",
}
ALONE = {
    "C30": ("interprocedural effect analysis over the crate's resolved call graph (MIR calls, function values, closures, trait dispatch, drops)",
            "Every outside call with an effect on files, streams, the process, or an input from clock or environment, that a public function or trait implementation can reach is found in the MIR of the current source and compared with what that function may do; nothing is executed. A mention of a function counts as a call. Trusts rustc's MIR and the list of effectful functions of std and syntect in props/c30.py."),
}
NOTE = ("Every path of the functions named in the evidence is interpreted abstractly for arbitrary inputs, from the MIR of the current source; every obligation has to be "
        "discharged by the domain (nothing is executed, sampled or given to a solver), and what it refutes is reported with function, source line and path condition. "
        "Obligations the analysis cannot decide after a change are listed as undecided in the evidence and raise no alarm; on the current tree there are none. "
        "Trusts rustc's MIR, the interpreter in absint/, its models of std, unicode-segmentation and syntect, and that lengths and counters do not overflow usize. ")
EXTRA = {
    "C01": "Buffers are analysed against the gap buffer's contract (a text, positions resolving to offsets of it), which C10 and C12 check.",
    "C10": "Assumes the store's raw bytes are only reached through these functions (checked: field privacy).",
}
NA = {
    "C27": "Crash atomicity of a save is not something the crate provides (it truncates and rewrites the file in place, as documented by its use of File::create); there is no mechanism whose presence a static analysis could check.",
    "C28": "Amortised running time depends on run-time distances and allocator behaviour; a static bound on the cost of edit sequences is out of reach, and the structural part (the gap is reused, not rebuilt) is visible only in performance.",
    "C29": "Which scopes a grammar assigns is decided by syntect's interpreter and the grammar files, outside this crate; what the crate does with the parser's answers is covered by C18.",
}
checks, claimed = [], set()
for l in open(os.path.join(here, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.exists(os.path.join(here, "props", i.lower() + ".py")):
        claimed.add(i)
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": ALONE[i][0] if i in ALONE else BASE + TECH[i], "level": "other", "level_note": ALONE[i][1] if i in ALONE else NOTE + EXTRA.get(i, "")})
na = []
for l in open(os.path.join(here, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i not in claimed:
        na.append({"property": i, "reason": NA.get(i, "No check for it yet.")})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the analysis reads the compiler's MIR, private items included. Known and repaired findings: known_findings.json. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
