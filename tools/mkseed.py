"""helper used while planting: mkseed.seed(id, [(file, old, new)...], property, needs, breaks)"""
import subprocess, json, os
def seed(i, edits, prop, needs, breaks):
    d = "/verif/seeded/" + i
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode == 0
    for f, o, n in edits:
        s = open("/repo/" + f, newline="").read()
        if "\r\n" in s:
            o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
        assert s.count(o) == 1, (f, s.count(o), o)
        open("/repo/" + f, "w", newline="").write(s.replace(o, n))
    open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", "/repo", "diff"]))
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
