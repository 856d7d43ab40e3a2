#!/usr/bin/env python3
"""DESIGN.md from DESIGN.in.md, props.py, properties.jsonl and seeded/*/meta.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
# property -> (oracle and how it decides, quick seconds)
T = {
"P01": ("print(scan(t)) must be t for every t; nothing else is assumed about the code", 20),
"P02": ("as P01 for fixed form; what lies beyond the last column must be kept as well (a mark is added to trailing text where the standard calls it a comment)", 90),
"P03": ("ref_lines.h dissects the same symbolic line; class, label, fields, columns, comment and open character context must agree", 20),
"P04": ("ref_lines.h, fixed form; the control columns are covered for all contents", 17),
"P05": ("ref_lines.h groups the same symbolic lines; number of groups, their lines, flags and joined text must agree", 25),
"P06": ("ref_lex.h tokenises the same text; number, text and tags of the tokens must agree; letter case is symbolic", 45),
"P07": ("every token's line/column range is read from the printed lines and must be the token's text; spacing before a token is recomputed from the lines", 35),
"P08": ("statements are counted independently with ref_lex.h (semicolons outside of brackets and literals); ranges, labels, prefixes and positions must agree", 25),
"P09": ("edit_util.h: text after the edit is computed from the text before; positions and ranges must be those of a fresh scan", 25),
"P10": ("as P09 for a whole file: statements, labels and lines other than the edited ones must be those of the original file, and every retained iterator must stay valid", 120),
"P11": ("text outside of the leading blanks must be unchanged, statements after re-reading the same, and the indentation the table's", 60),
"P12": ("statements and comments of the converted file, read as free form, must be those of the fixed-form file", 60),
"P13": ("tree structure invariants: a node's range is the concatenation of its branches', leaves are the tokens in order, the root covers the statement; a rejected statement leaves the token stream where it was", 60),
"P14": ("ref_gram.h: every generated sentence is accepted with the right tag (also with a name that is a keyword); every mutation is accepted exactly if the recogniser accepts it", 120),
"P15": ("stack machine over statement kinds: accepted or rejected, and the tree of units, constructs and their labels", 100),
"P16": ("no assertion but the executor's own: no crash, abort, escaped exception, endless loop or memory error; result flags consistent, printing gives back the text", 75),
"P17": ("regions recomputed from statement kinds; visiting order, context, and each region's range", 25),
"P18": ("the file after the edit, re-read, and the procedure's ranges must show the same statements, which are the expected ones", 100),
"P19": ("arrays as models of the list and of each range", 30),
"P20": ("array model of the tree; every link (branch, trunk, root list, cursor) is checked after every operation", 60),
"P21": ("matching bracket by counting; a model position in the token array; the message and position of failures", 22),
"P22": ("registered extensions take part exactly where their statement stands and are tried in the documented order; otherwise the trees are the same as without", 76),
"P23": ("the file after the visit must be the file before plus one use line at the computed place, exactly when some executable part calls the named thing and no use was there", 75),
}
T["P24"] = ("the file with the calls and branches inserted into the list of statements; the output, re-read and re-parsed, and the statements in memory must be these", 70)
T["P25"] = ("statements, labels and comments of the text before, read again after; none left of what was asked to be removed or split", 110)
T["P26"] = ("the form written down from the extension; otherwise two ways of reading the same text (the buffer scanned into a new object is the reference), and the outcome known for each kind of text; the file system is a table of names and texts in the engine and real files in the native runs", 60)
T["P27"] = ("the same text scanned into a second line that is never copied; everything visible of the two lines is compared", 60)
T.update(getattr(props, "DESIGN", {}))
CAUGHT = dict(l.split(None, 1) for l in open(os.path.join(V, "tools", "caught.txt")) if l.strip())
out = []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    p = d["id"]
    P = props.PROPS[p]
    orc, sec = T[p]
    out.append("### %s — %s\n" % (p, d["title"]))
    ents = []
    for r in P["runs"]:
        if r["entry"] not in ents:
            ents.append(r["entry"])
    out.append("*Harness* `%s`: %s.  *Decides by* %s.  *Bounds*: %s.  *Outside*: %s.  *Cost* about %d s.  *Tests cannot*: %s\n" % (", ".join(sorted({r["harness"] for r in P["runs"]})), ", ".join("`%s`" % e for e in ents), orc, P["bounds"], P["outside"], sec, d["why_tests_cant"]))
seeds = ["| seed | property | breaks | caught |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    d = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    seeds.append("| %s | %s | %s | %s |" % (s, d["property"], d["what_it_breaks"].replace("|", "/"), CAUGHT.get(s, "not run").strip()))
t = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
