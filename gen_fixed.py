#!/usr/bin/env python3
"""Rewrites the list of repaired defects of known_findings.json.

The property of each "fix:" commit of /repo is given here by a part of its subject.
"""
import json, subprocess, os
V = os.path.dirname(os.path.abspath(__file__))
P = [("one bit past the end", "C02"), ("eo::to_str of a numeral", "C03"), ("eo::to_bin of a negative", "C02"),
     ("leading zeroes when printed", "C04"), ("one-letter keyword", "C07"), ("byte 0xff", "C06"),
     ("-/5 is not a rational", "C04"), ("must not disable the reference check", "C15"),
     ("silently serve as reference", "C15"), ("assumptions in a local scope", "C15"),
     ("keep a local assumption alive", "C14"), ("input from stdin must close", "C14"),
     ("double quotes in printed string", "C22"), ("null characters", "C06"), ("unprintable characters", "C04"),
     ("deleting a term must not remove", "C05"), ("rules declared in a pushed scope", "C17"),
     ("popping a scope restores", "C17"), ("overloaded definitions are expanded", "C19"),
     ("list operators keep the order", "C09"), ("wrong numbers of arguments and premises", "C13"),
     ("unexpected keywords in a step", "C13"), ("reporting an open assumption", "C06"),
     ("closing parenthesis without a term", "C06"), ("ground bodies of programs", "C12"),
     ("define-fun of a reference", "C15"), ("programs that are only declared", "C12"),
     ("rules of popped scopes", "C16"), ("hash of a term must not change", "C10"),
     ("overloads are resolved by the name", "C17"), ("let-binder variables of non-ground", "C18"),
     ("input that cannot be read", "C20"), ("root directory is its own parent", "C20"),
     ("reset keeps the builtin", "C17"), ("parametric datatypes of declare-datatype", "C21"),
     ("every datatype of declare-datatypes", "C21"), ("printed undesugared", "C22"),
     ("let variables of printed terms", "C22"), ("names of printed variables", "C22"),
     ("read as other tokens are quoted", "C22"), ("hexadecimal literals keep their width", "C22"),
     ("variables are printed with _", "C22"), ("applications of ->, _ and as to no", "C06"),
     ("eo::extract has three arguments", "C06"), ("s-expression cannot begin with", "C06"),
     ("reset forgets the declared types", "C24"),
     ("reset unbinds the symbols", "C24")]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
fixed, seen = [], set()
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    m = [p for t, p in P if t in s]
    assert len(m) == 1, (s, m)
    fixed.append("fixed: property=%s %s %s" % (m[0], h, s[5:]))
k = json.load(open(V + "/known_findings.json"))
k["fixed"] = fixed
json.dump(k, open(V + "/known_findings.json", "w"), indent=1)
open(V + "/known_findings.json", "a").write("\n")
print(len(fixed))
