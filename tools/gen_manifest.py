"""Source of /verif/MANIFEST.json.  Run: python3 tools/gen_manifest.py   (claims every property that has a mon/cXX.py)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("reference-model monitor (independent Fourier sum + scipy eigensolver) over generated models, plus trace invariants on eigensolver calls", ""),
"C02": ("reference-model monitor (own derivative sums, finite differences, level traces)", ""),
"C03": ("stateful model-based monitor: operation sequences against an abstract multiset of spectra", ""),
"C04": ("metamorphic monitor: band folding and coordinate change", ""),
"C05": ("round-trip monitor over all formats, in a scratch directory", ""),
"C06": ("reference-model monitor: independently written hr/tb files with known Hamiltonian", ""),
"C07": ("invariant monitor hooked into the optimiser loop (log entries, parameters, data arrays)", ""),
"C08": ("reference-model monitor (brute-force statistics over all alignments)", ""),
"C09": ("reference-model monitor (group closure and cosets from explicit matrices)", ""),
"C10": ("reference-model monitor (brute-force orbits) and round trips", ""),
"C11": ("metamorphic monitor (invariance, idempotence, linearity, brute-force average)", ""),
"C12": ("reference-model monitor (homomorphism table, characters, explicit sums and products)", ""),
"C13": ("metamorphic monitor (spectra and Hamiltonians at all symmetry images)", ""),
"C14": ("reference-model monitor (independent exact half-space geometry)", ""),
"C15": ("conservation/monotonicity monitor over energy traces and metamorphic relations", ""),
"C16": ("invariant monitor of the returned levels against the object's own state count", ""),
"C17": ("reference-model monitor (independent quadrature of the Fermi-Dirac integrals)", ""),
"C18": ("trace monitor over hooked drawing/export calls and sampled points", ""),
"C19": ("reference-model monitor (independent quadrature, free-electron closed forms) and metamorphic relations", ""),
"C20": ("trace-specification monitor of paths; interpolation checked at all images", ""),
"C21": ("reference-model monitor: synthetic result files with known contents", ""),
"C22": ("reference-model monitor: generated inputs parsed by an independent reader; process calls recorded by a stand-in", ""),
"C23": ("invariant monitor: state and argument digests before and after every query, interleaved over copies", ""),
"C24": ("reference-model monitor (defining equations, brute force)", ""),
"C25": ("reference-model monitor (brute-force folded parabolas)", ""),
"C26": ("trace monitor: recorded matplotlib artists, printed stream and log contents against the data that went in", ""),
}
NOTE = ("Exploration: held on every execution observed (counts in the evidence file), nothing more. Trusts numpy/scipy, the generators in mon/ and the "
        "oracle's tolerances; inputs are seeded from VERIF_SEED.")
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(HERE, "mon", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd=f"./check.sh {p}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p}", evidence_file=f"evidence/{p}.json",
            technique="runtime monitoring: " + T[p][0], level="exploration", level_note=(NOTE + " " + T[p][1]).strip()))
    else:
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="All checks run the code in /repo/src as it is (pure Python, no build). Hooks are installed at run time from /verif/mon by wrapping attributes; /repo carries no instrumentation. Known findings: known_findings.json.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
