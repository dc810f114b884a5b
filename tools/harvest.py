#!/usr/bin/env python3
"""Harvests R snippets from the repository's own lint tests into full/corpus/snippets.json (run once; its output is committed)."""
import json, pathlib, re
root = pathlib.Path("/repo/crates/jarl-core/src/lints")
rules = {p.name for p in root.glob("*/*") if p.is_dir()}
lit = re.compile(r'(@?)\s*(r(#*)"(.*?)"\3|"((?:[^"\\]|\\.)*)")', re.S)
out = {}
for f in sorted(root.glob("*/*/*.rs")):
    t = f.read_text()
    rule = f.parent.name
    if "#[cfg(test)]" in t:
        t = t[t.index("#[cfg(test)]"):]
        for m in lit.finditer(t):
            if m.group(1) or t[:m.start(2)].rstrip().endswith("@"): continue
            s = m.group(4) if m.group(4) is not None else m.group(5)
            if m.group(5) is not None:
                s = re.sub(r'\\(\r?\n)\s*', '', s)
                s = re.sub(r'\\([nrt"\\\'0])', lambda k: {"n":"\n","r":"\r","t":"\t",'"':'"',"\\":"\\","'":"'","0":"\0"}[k.group(1)], s)
            if s in rules or len(s.strip()) < 3 or s.strip() == rule or "expect" in s and "lint" in s or re.fullmatch(r"[\w ]+(_output|comments?|fix)\w*", s.strip()): continue
            if re.match(r"warning: |OLD:|Found \d", s.strip()): continue
            out.setdefault(rule, [])
            if s not in out[rule]: out[rule].append(s)
    else:
        for m in re.finditer(r"```r\n(.*?)```", "\n".join(l.strip()[3:].lstrip(" ") if l.strip().startswith("///") else "" for l in t.split("\n")), re.S):
            out.setdefault(rule, [])
            if m.group(1) not in out[rule]: out[rule].append(m.group(1))
p = pathlib.Path("/verif/full/corpus/snippets.json")
p.write_text(json.dumps(out, indent=0, ensure_ascii=False) + "\n")
print(len(out), sum(map(len, out.values())), p.stat().st_size)
