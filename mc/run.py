"""Entry point: python -m mc.run <property> [--tier quick|thorough] [--replay FILE] [--space NAME]"""
import argparse, importlib, json, os, shutil, signal, sys, tempfile, time

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--space")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, os.path.join(repo, "src"))
    from . import core, findings
    import aligned_textgrid
    assert os.path.abspath(aligned_textgrid.__file__).startswith(os.path.join(repo, "src")), aligned_textgrid.__file__
    if not os.environ.get("VERIF_SCRATCH"):
        os.environ["VERIF_SCRATCH"] = tempfile.mkdtemp(prefix="verif-mc.")
        import atexit
        atexit.register(shutil.rmtree, os.environ["VERIF_SCRATCH"], True)
    mod = importlib.import_module(f"mc.{a.prop.lower()}")
    t0 = time.time()
    spaces = mod.spaces(tier)
    if a.replay:
        d = json.load(open(a.replay))
        if d["space"].startswith("probe:"):
            spaces = [core.Space("probe:" + pid, what, lambda: iter([pid]), lambda c, rec, f=f: f())
                      for pid, (what, f) in getattr(mod, "PROBES", {}).items()]
        sp = next((s for s in spaces + mod.spaces("thorough") if s.name == d["space"]), None)
        signal.signal(signal.SIGALRM, core._alarm)
        r = core.execute(sp, d["case"], core.Rec())
        print("space:", d["space"]); print("case:", json.dumps(d["case"])); print("result:", r)
        sys.exit(1 if r and r != "skip" else 0)
    listed = findings.load(a.prop)
    seen_known, viol = [], None
    tot = {"cases": 0, "transitions": 0}
    states, per, samples = 0, {}, []
    # known findings are probed one by one, on their own
    for pid, (what, fn) in getattr(mod, "PROBES", {}).items():
        sp = core.Space("probe:" + pid, what, lambda: iter([pid]), lambda c, rec, fn=fn: fn())
        signal.signal(signal.SIGALRM, core._alarm)
        dn = os.dup(1); nul = os.open(os.devnull, os.O_WRONLY); sys.stdout.flush(); os.dup2(nul, 1)
        r = core.execute(sp, pid, core.Rec())
        sys.stdout.flush(); os.dup2(dn, 1); os.close(dn); os.close(nul)
        if r and r != "skip":
            if pid in listed:
                print(f"KNOWN-FINDING: property={a.prop} {pid}: {listed[pid]}")
                seen_known.append(pid)
            else:
                viol = viol or (sp, 0, pid, r[2:])
    if viol is None:
        for sp in spaces:
            if a.space and sp.name != a.space:
                continue
            t1 = time.time()
            o = core.explore(sp)
            tot["cases"] += o["cases"]; tot["transitions"] += o["transitions"]; states += len(o["states"])
            per[sp.name] = {"bounds": sp.bounds, "cases": o["cases"], "disabled": o["skipped"], "states": len(o["states"]),
                            "transitions": o["transitions"], "outcomes": o["outcomes"], "wall_s": round(time.time() - t1, 2)}
            samples += [{"space": sp.name, "case": s} for s in o["samples"][:2]]
            print(f"{a.prop} {sp.name}: cases={o['cases']} disabled={o['skipped']} states={len(o['states'])} "
                  f"transitions={o['transitions']} {time.time()-t1:.1f}s", flush=True)
            if o["violations"] and core.TRIAGE:
                import re
                kinds = {}
                for i, case, msg in o["violations"]:
                    kinds.setdefault(re.sub(r"[0-9.]+|'[^']*'", "_", msg)[:160], []).append((case, msg))
                for k, v in sorted(kinds.items(), key=lambda kv: -len(kv[1]))[:12]:
                    print(f"  [{len(v)}] {json.dumps(v[0][0])[:600]}: {v[0][1][:400]}")
            elif o["violations"]:
                i, case, msg = o["violations"][0]
                viol = (sp, i, case, msg)
                break
            if o["cases"] == 0:
                raise RuntimeError("vacuous space " + sp.name)
    wall = time.time() - t0
    ev = {"property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": states, "transitions": tot["transitions"], "traces_validated_against_impl": tot["cases"],
                       "samples": samples[:8], "exhaustive": viol is None and not a.space, "spaces": per,
                       "known_findings_seen": seen_known,
                       "rule": "every case of every space is executed on the real code and compared, after each operation, with the reference model; states are distinct canonical observations, transitions are operations of the public API executed and compared"},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(core.ROOT, "evidence", f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        sp, i, case, msg = viol
        d = os.path.join(core.ROOT, "evidence", "replays"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{a.prop}.json")
        with open(path, "w") as f:
            json.dump({"property": a.prop, "space": sp.name, "index": i, "case": case, "message": msg,
                       "replay": f"bin/check {a.prop} --replay {path}"}, f, indent=1)
        print(f"space {sp.name}, case {json.dumps(case)}: {msg}")
        print(f"VIOLATION property={a.prop} replay={path}")
        sys.exit(1)
    print(f"{a.prop} held: states={states} transitions={tot['transitions']} traces={tot['cases']} {wall:.1f}s")
    sys.exit(0)

if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
