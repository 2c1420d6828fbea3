"""Writes /verif/known_findings.json: genuine defects found by the checks (all repaired so far)."""
import json, os, subprocess
F = [
 ("C01", "drop OPT sentinels", "to_dict() of an attribute class nested in attrs kept OPT sentinels, so the output was not JSON"),
 ("C09", "propagate ignore_error", "lists, tables and other containers did not hand ignore_error to their content: one bad card dropped a whole list"),
 ("C12", "orderedList without attrs", "an ordered list without attrs raised AttributeError"),
 ("C12", "taskItem without content", "a task without content raised"),
 ("C16", "indentation mark keeps", "the indentation mark replaced the text by the tabs (also C08)"),
 ("C04", "export the ParamError", "the exported ParamError was not the one that parameter validation raises"),
 ("C04", "a missing required mark attribute", "marks without a required attribute were accepted or raised another error"),
 ("C13", "single delimiter row", "a delimiter row was written after every row with header cells; an empty first row raised"),
 ("C11", "code that contains a fence", "code with ``` ended its code block early"),
 ("C15", "collapse any number", "five or more line breaks in a row left several blank lines"),
 ("C11", "keep blank lines inside", "blank lines inside code were collapsed"),
 ("C10", "separate tables, task", "tables, task and decision lists, images and extensions ran into the next block"),
 ("C13", "blocks in a table cell", "blocks of a cell shared a line (also C08)"),
 ("C16", "link with an empty title", "a link with an empty title lost its text (also C08)"),
 ("C11", "inline code that contains a double", "inline code with a double backtick ended early"),
 ("C12", "nested lists and multi-block", "nested lists of another kind and second blocks left their list item"),
 ("C10", "line break does not end a heading", "text after a line break left the heading"),
 ("C14", "only a newline starts", "textwrap.indent broke quoted lines at U+2028 and the like"),
 ("C02", "content and marks a node", "content or marks on a type that does not model them made parsing fail"),
 ("C19", "delimiter of code is found", "the delimiter of code was searched once per backtick: quadratic work (in the repair above)"),
 ("C18", "works in any project folder", "in a project below a folder named marks the API generator dropped every node"),
 ("C12", "whose first item is empty stays a list", "a nested list whose first item is empty became a heading or text of the item above"),
 ("C21", "can be copied and pickled", "the unimplemented-type error could not be copied or unpickled, so a process pool that meets one broke"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for pid, key, what in F:
    c = [l.split()[0] for l in log if key in l and " fix: " in l]
    assert len(c) == 1, (key, c)
    out.append({"property": pid, "status": "fixed", "commit": c[0], "what": what, "line": f"fixed: property={pid} {c[0]} {what}"})
n = sum(" fix: " in l for l in log)
assert n == len(out), (n, len(out))
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w"), indent=1)
print(len(out))
