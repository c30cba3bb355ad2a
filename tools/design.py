"""python tools/design.py: makes DESIGN.md from design.tmpl, the bounds in the checks, the evidence files (costs), seeded/ and known_findings.json.

A development aid: no check uses it."""
import glob
import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
ORACLE = {
    "C01": "numpy slices of the global array at the offsets of the split; properties of the layout",
    "C02": "a sequential list of N local arrays with the same writes; memory of the values passed in compared before and after",
    "C03": "the same sequence on plain numpy arrays, with layout, result types, aliasing (writing into results) and operands checked after every operation",
    "C04": "numpy.linalg.norm / numpy.dot of the global array (or of each line along the axis); exact shapes; equal bits on all ranks",
    "C05": "the pieces of the rank's group, concatenated, in numpy",
    "C06": "every pair that matches must work, every other must raise on at least one rank, with operands unchanged",
    "C07": "slices of the global array around each piece; a request exceeding a neighbour's piece must raise",
    "C08": "no deadlock, mismatch, leftover message or request in any reachable state, and the same outcome in all final states",
    "C09": "the reference execution of the same case: values equal, replicated ones bit for bit, under every schedule and both contents of fresh memory",
    "C10": "the operator's own result with the split it expects; a predicate says from the two splits whether neighbours suffice, else it has to raise",
    "C11": "matrix of serial pylops.FirstDerivative", "C12": "matrix of serial pylops.SecondDerivative", "C13": "matrix of serial pylops.Laplacian",
    "C14": "matrix of serial pylops.Gradient, part by part", "C15": "numpy block-diagonal matrix", "C16": "numpy.vstack", "C17": "numpy.hstack",
    "C18": "numpy stacks of the parts' matrices; layout of each part", "C19": "the expression evaluated on dense matrices", "C20": "the expression evaluated on dense matrices",
    "C21": "the two inner products computed from the dense matrices, away from the tolerance's boundary", "C22": "the same call as the very first one in a new process",
    "C23": "block-diagonal matrix of the kernel's slices, as in serial pylops.Fredholm1", "C24": "matrix of serial pylops.waveeqprocessing.MDC",
    "C25": "textbook CG in numpy on the dense global system, iterate by iterate", "C26": "textbook CGLS in numpy on the system augmented with the damping, iterate by iterate",
    "C27": "solve() on the same system; the printed text; the list of iterates the callback got", "C28": "the same work on a world of the group's size",
    "C29": "numpy on the concatenated flattened parts", "C30": "the serial operator", "C32": "the same program in dense numpy and serial pylops, every intermediate result", "C33": "bytes and layout of every argument before and after each rejected call; known results of the valid calls after it",
    "C31": "pixels, titles, limits and ticks read back from the finished Agg figure",
}


def main():
    s = open(os.path.join(ROOT, "tools", "design.tmpl")).read()
    props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
    rows = []
    for p in props:
        m = importlib.import_module("mc.props." + p["id"].lower())
        rows.append(f"| {p['id']} {p['title']} | {m.BOUNDS}. *Beyond tests:* {p.get('why_tests_cant', '')} | {ORACLE[p['id']]} |")
    s = s.replace("@TABLE@", "\n".join(rows))
    kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
    s = s.replace("@FIXED@", "\n".join("* " + x[len("fixed: "):].replace("property=", "") for x in kf["fixed"]))
    notes = json.load(open(os.path.join(ROOT, "tools", "seeded_notes.json")))
    rows = ["| bug | property | what it breaks | needs | |", "|-|-|-|-|-|"]
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        i = os.path.basename(os.path.dirname(d))
        b = json.load(open(d))
        rows.append(f"| {i} | {b['property']} | {b['what_it_breaks']} | {b['needs']} | {notes.get(i, 'caught')} |")
    s = s.replace("@SEEDED@", "\n".join(rows)).replace("@LESSONS@", notes["lessons"])
    rows = ["| | cases | executions | states | transitions | on real MPI | quick, s | thorough |", "|-|-|-|-|-|-|-|-|"]
    th = json.load(open(os.path.join(ROOT, "tools", "thorough.json")))
    for p in props:
        try:
            e = json.load(open(os.path.join(ROOT, "evidence", p["id"] + ".json")))
        except OSError:
            continue
        c = e["coverage"]
        if e["tier"] != "quick" or e["violations"]:
            print("stale evidence of", p["id"])
        rows.append(f"| {p['id']} | {c['cases']} | {c['executions']} | {c['states']} | {c['transitions']} | {c['traces_validated_against_impl']} | {e['wall_s']:.0f} | {th.get(p['id'], '')} |")
    s = s.replace("@COST@", "\n".join(rows))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)


main()
