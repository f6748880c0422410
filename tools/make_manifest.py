"""Write MANIFEST.json from the plan and the list of properties."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dst.plan import PLAN

TECH = {
    "C01": "call histories with injected interruptions against a reference map",
    "C02": "caller writes to everything handed in or out between interrupted calls; exact-state oracle",
    "C03": "corruptions, concurrent writer at chosen source lines, interrupts and retries; acceptance reference",
    "C04": "simulated samplers with failures, crashes and resumption; independent record of every step",
    "C05": "interrupt, allocation failure or storage fault at a chosen line of every read; exact state comparison, pristine retry",
    "C06": "histories of edits, replacements and reconfigurations; every read against a pristine process",
    "C07": "seeded line-level thread scheduler; each result against the same read alone",
    "C08": "override set/replace/lift histories with interrupts; pristine merged-options reference",
    "C09": "simulated disk (open, write, short-write, close, full-disk faults) under every saving call",
    "C10": "interleaved figures and user drawing with interrupts; digests of all live figures after every step",
    "C11": "noninterference: pristine second run with other blinded values, over configuration histories with faults",
    "C12": "audits of every surface against the summary across edit/override/configuration histories with faults",
    "C13": "registry and edit histories with interrupts against an exact reference of the criteria",
    "C14": "simulated walker ensembles with sampler faults and resumption against an extended-precision reference",
    "C15": "edit, division and interrupt histories; row-exact and option-exact reference, use against pristine chains",
    "C16": "table pipelines and edit histories with interrupts; reference set of best samples",
    "C17": "ambient state compared around every (interrupted) call; results re-derived under another ambient state",
    "C18": "artist-by-artist audit of every figure across edit/configuration histories with interrupts",
    "C19": "simulated time: budget of executed lines for every call on degenerate inputs, with interrupts",
    "C20": "simulated histories of changes of writing (units, names, order, weight scale, repetition) with interrupts; oracle: the same read of the base state in a pristine process, translated",
}
NOTE = {
    "C07": "Samples schedules; preemption is at source lines of the package, so races inside one line or inside numpy, scipy or matplotlib internals are outside. ",
    "C09": "Faults are injected at the Python file layer (open, write, close, replace); the kernel's page cache and fsync are not modelled because the code promises no durability across power loss. ",
    "C19": "The bound is six million executed lines of the package and a minute of processor time: far above what the shipped code needs on these inputs. ",
    "C20": "Units change by even powers of two so that rounding plays no part; figures are compared as fractions of their panels. ",
    "C18": "Contours are held to the enclosed mass only within a tolerance that allows for smoothing and few samples. ",
}
NA = {
    "N01": "A pure function of one sample: no schedule, fault, clock or history enters it; deciding it would be plain input generation. That the shown numbers are the same on all surfaces and after all histories is C12/C06.",
    "N02": "A pure function of three numbers; no nondeterminism or fault to simulate. That every surface carries the same text is C12.",
    "N03": "A pure function of one sample; no nondeterminism or fault to simulate. That it ends is C19.",
    "N04": "A pure function of one sample; no nondeterminism or fault to simulate. That the tables follow the chains as they are now is C12/C06.",
    "N05": "A pure function of one colour; no nondeterminism or fault to simulate.",
}
BASE = (
    "Seeded search: a clean run is evidence over the runs counted in the evidence file, not proof. One seed is one exactly repeatable "
    "execution; violations are minimised and replayed in a fresh process before they are reported. Trusts numpy, pandas, scipy, "
    "matplotlib and the reference in dst/props/{}.py."
)
checks = []
for pid in sorted(PLAN):
    checks.append({
        "property": pid,
        "quick_cmd": f"bin/dst check {pid} quick",
        "thorough_cmd": f"bin/dst check {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "deterministic simulation with fault injection: " + TECH[pid],
        "level": PLAN[pid]["level"],
        "level_note": NOTE.get(pid, "") + BASE.format(pid.lower()),
    })
json.dump({
    "version": 1,
    "setup_cmd": "bin/dst setup",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: the seams are Python's own (line tracing of the package's frames, the builtin open, generator "
    "constructors, environment variables). See DESIGN.md.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
