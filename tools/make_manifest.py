"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("runtime monitor: round-trip oracle over generated and real documents", "to_dict output compared with the input JSON restricted to an independent field table, types of values included"),
 "C02": ("runtime monitor: differential observation with injected unknown fields", "object, serialised form and Markdown compared with and without hostile extra fields"),
 "C03": ("runtime monitor: differential observation plus log-record checker", "object compared with that of the document without the elements; one log record per element under settings histories"),
 "C04": ("runtime monitor under injected malformations", "every required field of every element removed or replaced; an online checker requires an error and its kind"),
 "C05": ("runtime monitor: structural checker of the parsed object tree", "every object compared with an independent type table; equality oracle on pairs"),
 "C06": ("runtime monitor: aliasing checker and mutation histories", "identity scan for shared mutable parts, random mutation of inputs and outputs, write attempts on every object"),
 "C07": ("runtime monitor: results compared over histories, injected thread schedules and environments with pristine processes", "thread switches injected at every line and cold imports; references from fresh processes"),
 "C08": ("runtime monitor: token conservation and ordering checker", "unique tokens in every visible position, exact sequence compared"),
 "C09": ("runtime monitor under injected conversion faults", "unconvertible elements placed anywhere; oracle of the first failing element and of the pruned document"),
 "C10": ("runtime monitor: output read back by a CommonMark parser against an independent expected tree", "sequence and content of blocks compared"),
 "C11": ("runtime monitor: output read back by a CommonMark parser", "code text, language and code spans compared character for character"),
 "C12": ("runtime monitor: output read back by a CommonMark parser plus line-level checker", "list trees, numbers, check states and indentation compared"),
 "C13": ("runtime monitor: output read back by a GFM parser plus row/cell splitter", "rows, cells, delimiter and cell escapes compared"),
 "C14": ("runtime monitor: output read back by a CommonMark parser plus line-prefix checker", "quotes compared with their content converted outside"),
 "C15": ("runtime monitor: line-level checker of blank runs", "blank runs counted outside code; only blank lines removed"),
 "C16": ("runtime monitor: independent fold of the mark rules", "runs compared character for character, sequences with the concatenation"),
 "C17": ("runtime monitor: independent value renderer", "every attribute value and timestamps over years 1 to 9999"),
 "C18": ("runtime monitor: generator run on the package and on edited copies, compared with an AST scan", "module byte for byte; classes listed once under their module"),
 "C19": ("runtime monitor: execution-event counters over growing families", "lines and calls counted with sys.monitoring; growth ratios and CPU watchdog"),
 "C20": ("runtime monitor: graph, schema and fault workloads with independent oracles", "order and completeness compared; working directory checked after faults and concurrent histories"),
 "C21": ("runtime monitor: copies and pickles compared part by part with the original, here and in fresh processes", "class, value and OPT identity of every part, outputs, shared mutable parts, write attempts; errors through process pools"),
 "C22": ("runtime monitor: interpreter audit hook, captured streams and snapshots of process state", "every operation runs between two snapshots under an audit hook; the monitor tests itself against eighteen faults"),
 "C23": ("runtime monitor: allocation counter and weak references over histories of unique documents", "growth of allocated blocks over rounds after warm-up; the monitor tests itself on a leak and on a bounded cache"),
 "C24": ("runtime monitor: differential observation of the same JSON value in different forms", "object, dict, Markdown, errors and warnings compared between forms"),
 "C25": ("runtime monitor: metamorphic oracle, whole against its halves", "lines, cells and errors of the whole compared with those of the two halves of a random cut"),
 "C26": ("runtime monitor: made-up classes registered and removed in histories, compared with an independent field table and with built-in elements in the same place", "classes, values, output, errors and warnings of every element compared"),
}
checks = []
for pid, (tech, note) in T.items():
    if not os.path.exists(os.path.join(HERE, "vmon/checks", pid.lower() + ".py")):
        continue
    checks.append(dict(property=pid, quick_cmd=f"python3 run.py {pid}",
                       thorough_cmd=f"VERIF_TIER=thorough python3 run.py {pid}",
                       evidence_file=f"evidence/{pid}.json", technique=tech, level="exploration",
                       level_note=note[0].upper() + note[1:] + ". Holds on the executions observed (counts in the evidence file); trusts the field "
                       "table and oracle in vmon, CPython and, where Markdown is read back, markdown-it-py."))
na = [dict(property=p, reason="check not built yet") for p in T if p not in [c["property"] for c in checks]]
json.dump(dict(version=1, setup_cmd="python3 tools/smoke.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the monitors observe through the public API, logging, sys.monitoring and the file system."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
