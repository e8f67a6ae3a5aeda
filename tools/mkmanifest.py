import json, subprocess
hook = subprocess.check_output(["git","-C","/repo","log","--format=%H","--grep=Add simulation seam"],text=True).split()
notes = {
"C01": "Seeded one-operand networks, both build profiles, judged symbol by symbol against exact big-integer enclosures. Says nothing about networks, coefficients or streams not drawn.",
"C02": "Seeded two-operand networks, both build profiles, judged symbol by symbol against exact big-integer enclosures. Says nothing about networks not drawn.",
"C03": "Seeded pairs of live numbers with observed edges. Equal endless pairs are never compared (no answer exists).",
"C04": "Seeded points of consumption on seeded live numbers; exactness by big-integer algebra.",
"C05": "Seeded magnitudes around the integer range in both build profiles; 64-bit only.",
"C06": "Seeded failure points, placed by learning when each edge is asked; failing constructions included. Several failures at once only by chance.",
"C07": "Seeded interleavings at pull granularity; preemption inside a library call between pulls is not simulated. Independence of the process's history is sampled (one run in a hundred against a fresh process).",
"C08": "Every edge observed on seeded networks. The two-operand bound of three symbols is the measured behaviour, not a theorem.",
"C09": "Seeded networks with the process boundary intercepted at the C library; raw system calls would go unseen.",
"C10": "Seeded finite networks pulled past their end.",
"C11": "Seeded networks of small magnitude, and of large magnitude whose coefficients are followed in wide integers; a stall is a call that asks for more than 20 000 symbols (more for larger networks) or runs for 20 s. \"Small\" is 26 to 28 bits of coefficients and symbols read.",
"C12": "Enumerated single failures at every write, seeded plans beyond that; writes intercepted at the C library.",
"C13": "Seeded abandonment points with a counting allocator; streams of thousands of symbols only in part of the runs; growth under 256 bytes goes unseen.",
"C14": "Seeded pairs of equivalent networks.",
}
tech = {
"C12": "deterministic simulation of the process's output with injected write faults, against a reference model",
"C07": "deterministic simulation: seeded interleavings, re-entrant and threaded schedules, against solo runs",
"C09": "deterministic simulation: process boundary intercepted, stream and clock faults injected",
"C13": "deterministic simulation: abandonment and failure injection under an accounting allocator",
"C06": "deterministic simulation: injected producer failures, later symbols judged by a reference model",
}
checks = []
for i in range(1, 15):
    p = "C%02d" % i
    checks.append({
        "property": p,
        "quick_cmd": "bash run.sh check %s" % p,
        "thorough_cmd": "bash run.sh check %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": tech.get(p, "deterministic simulation of symbol streams with injected edge disturbances, judged by a reference model"),
        "level": "exploration",
        "level_note": notes[p],
    })
m = {
    "version": 1,
    "setup_cmd": "bash run.sh setup",
    "hooks": {"guard": "cfg(clarith_sim)", "enable": "RUSTFLAGS=\"--cfg clarith_sim\"", "source_commits": hook},
    "checks": checks,
    "not_applicable": [
        {"property": "C15", "reason": "A pure function of two integers: no schedule, interleaving or fault can influence it. Ratios do serve as leaves of the simulated networks, and the table of C12 is checked."},
        {"property": "C16", "reason": "A pure function of integer pairs; the part of comparison that depends on streams and their history is C03."},
        {"property": "C17", "reason": "Decided by the compiler, not by any execution that could be simulated."},
    ],
    "notes": "The tier is taken from VERIF_TIER, the seed from VERIF_SEED. `bash run.sh replay FILE` re-runs a replay file against the current tree.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
