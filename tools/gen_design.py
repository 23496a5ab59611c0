"""Write DESIGN.md from tools/design.in.md, sa/registry.py, the drivers, known-findings.txt and tools/caught.txt."""
import ast
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.registry import PROPS  # noqa: E402

ORACLE = {
    "C01": "No write to a frozen object on any path (ownership); equality of the results of two calls with a call between.",
    "C02": "Ownership of the caller's lists and dicts; snapshots of stored defaults compared after each build.",
    "C03": "Each lookup against its definition over the list (a comprehension in the entry point), used before or not.",
    "C04": "Ownership of the sequence during the query; snapshot again after every returned list was changed.",
    "C05": "The kind of the sequence holding each object, on normal and on exceptional paths.",
    "C06": "Membership of the result against the private flag; spies at each priority see the private matches.",
    "C07": "The rule of the statement evaluated over the same relative order; the trace of solver calls and arguments.",
    "C08": "The execution trace against the order relation (priority, dependency, registration), in both set orders.",
    "C09": "The trace of enabled/when/then calls, identity of the objects passed, the reported pairs.",
    "C10": "The sequence afterwards against the set definition; every write to a match's name or tags while it is in a sequence.",
    "C11": "The trace of what was called and with which context; the parts that are enabled are all in the trace.",
    "C12": "Validator verdicts are unknown: the emitted set must be the function of the verdicts the statement gives.",
    "C13": "Truth table of the statement.",
    "C14": "Zone facts: start < end must be implied for each yielded match; every non-empty found span is yielded.",
    "C15": "Term equality: raw = slice(S, start, end) and the span is the place the oracle reported in S.",
    "C16": "Iteration bound derived from the number of positions; progress: each search begins beyond the last (zone).",
    "C17": "Identity of values against the matches of the name; an error must precede any call of the model.",
    "C18": "The formatter that reaches the match; the switch's interpretation; the trace (before any rule).",
    "C19": "Precedence of levels computed in the entry point for every subset of levels.",
    "C20": "The exception object that leaves is the one raised, over every builtin class named in a handler of the package.",
    "C21": "Self-composition: two interpretations with opposite set/identity/hash order must give equal observations.",
    "C22": "Self-composition: plain against every other debug/logging configuration.",
    "C23": "The relation of the statement over unknown fields, every combination of equal and different.",
    "C24": "Zone comparison of half-open intervals on the same path.",
    "C25": "The statement's shape evaluated over the matches sorted by span.",
    "C26": "The declared configuration of each entry point.",
    "C27": "The same query without predicate and index, then filtered and indexed in the entry point.",
    "C28": "Term equality of value, raw and neighbours; traces of combinators.",
    "C29": "The module object that compiled each expression, under each modelled environment.",
}
BOUNDS = {
    "C08": "3-4 rules; every graph on 3.", "C07": "2-4 matches.", "C03": "3-4 matches, 1-2 operations.",
    "C10": "2-4 matches.", "C24": "1-3 matches or spans.", "C25": "2-4 matches.", "C27": "up to 4 matches.",
    "C16": "texts of up to 6 unknown characters (any length for the find loops); graphs on 3 items.",
    "C14": "k found occurrences (1-2).", "C15": "k found occurrences (1-2), 2-3 chain parts.",
    "C12": "1 engine match, 2 groups.", "C13": "1-2 engine matches, 2 groups.",
}


def main():
    s = open(os.path.join(ROOT, "tools", "design.in.md"), encoding="utf-8").read()
    titles = {}
    for line in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8"):
        d = json.loads(line)
        titles[d["id"]] = d["title"]
    out = []
    for p, spec in PROPS.items():
        cases = []
        for dn in spec["drivers"]:
            t = ast.parse(open(os.path.join(ROOT, "sa", "drivers", dn + ".py"), encoding="utf-8").read())
            cases += [n.name[5:] for n in t.body if isinstance(n, ast.FunctionDef) and n.name.startswith("case_")]
        out.append(f"**{p} {titles[p]}.** {spec['what']} *Oracle:* {spec.get('oracle') or ORACLE[p]} "
                   + (f"*Bounds:* {spec.get('bounds') or BOUNDS.get(p)} " if spec.get("bounds") or BOUNDS.get(p) else "")
                   + f"*Entry points* ({len(cases)}): {', '.join(cases)}.")
    s = s.replace("@@PROPS@@", "\n\n".join(out))
    fixed = [x[len("fixed: "):].strip() for x in open(os.path.join(ROOT, "known-findings.txt"), encoding="utf-8")
             if x.startswith("fixed:")]
    s = s.replace("@@FIXED@@", "\n".join("- " + x for x in fixed))
    rows = ["| change | caught by its check | needs |", "|---|---|---|"]
    for x in open(os.path.join(ROOT, "tools", "caught.txt"), encoding="utf-8"):
        b, p, rc, *rest = x.split(None, 3)
        m = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json"), encoding="utf-8"))
        rows.append(f"| {b}: {m['what_it_breaks']} | {'yes' if rc == 'rc=1' else 'no'} "
                    f"| {m['needs'] if isinstance(m['needs'], str) else '; '.join(m['needs'])} |")
    s = s.replace("@@PLANTS@@", "\n".join(rows))
    open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf-8").write(s)


main()
