"""Developer tool: run the full quick checks against the mutants that survived mutate.py's time limit.

  mutconfirm.py MUT.jsonl OUT.jsonl
"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate, seedtool


def main():
    src, out = sys.argv[1:3]
    done = {(d["file"], d["mutant"]) for d in map(json.loads, open(out))} if os.path.exists(out) else set()
    for d in map(json.loads, open(src)):
        if d["verdict"] == "killed" or (d["file"], d["mutant"]) in done:
            continue
        text = next((t for t, m in mutate.mutants(open(os.path.join(mutate.REPO, d["file"])).read()) if m == d["mutant"]), None)
        if text is None:
            continue
        v = "SURVIVED"
        for c in next(c.split() for k, c in mutate.CHECKS if k in d["file"]):
            r = seedtool.catch("none", [c], lambda root: open(os.path.join(root, d["file"]), "wb").write(text))[1][0]
            if r[1]:
                v = f"killed {c} {r[1]} {r[3]}"
                break
        with open(out, "a") as f:
            f.write(json.dumps({"file": d["file"], "mutant": d["mutant"], "verdict": v}) + "\n")


if __name__ == "__main__":
    main()
