#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run after editing; both outputs are committed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ED = "crates/ass-editor/"
CO = "crates/ass-core/"
RE = "crates/ass-renderer/src/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note, observe=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  note=note, observe=observe, technique=technique))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for fn in p["files"]:
            assert os.path.exists("/repo/" + fn), (p["id"], fn)
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": a}, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "ass_verif", "enable": "harness/.cargo/config.toml passes --cfg ass_verif to every harness build", "source_commits": ["f586091"]},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 tools/check.py {p['id']}",
        "thorough_cmd": f"python3 tools/check.py {p['id']} --thorough",
        "technique": p["technique"] or "TLA+ specification: TLC model checking, generated behaviours and trace validation",
        "level": "model_checking",
        "level_note": p["note"],
    } for p in P],
    "not_applicable": NOT_APPLICABLE,
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
seeds = []
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    seeds.append(f"* `{d}` ({m['property']}): {m['what_it_breaks'].rstrip('.')}. Needs: {m['needs'].rstrip('.')}. Caught by: {m.get('caught_by', 'not recorded')}.")
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(open(os.path.join(V, "tools", "design_text.md")).read())
    for p in P:
        f.write(f"\n### {p['id']} {p['title']}\n{p['statement']}\n\n*For:* {p['qtext']}.  *Tests:* {p['why']}\n\n*Decided by:* {p['note']}\n")
    f.write(open(os.path.join(V, "tools", "design_tail.md")).read())
    f.write("\n".join(seeds) + "\n")
print(len(P), "properties")
