#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the harness IR from /repo's current tree, explores the property's harnesses symbolically, replays every
counterexample (and a sample of the explored paths) on natively compiled code, writes evidence/PROPERTY.json.
exit 0: held on everything explored; 1: VIOLATION (reproduced on the native build); 2/3: the check itself failed.
"""
import json, os, resource, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, props
V, W = build.V, build.W

def hexs(m):
    return m if isinstance(m, str) else "".join("%02x" % b for b in m)

def replay(rp, h, case, model, timeout=20):
    """native run of one model -> (status, observations, violation codes, findings)"""
    rp = rp[h]
    f = W + "/one-%d" % os.getpid()
    open(f, "w").write("%s %s %s\n" % (h, case, model))
    try:
        r = subprocess.run([rp, "--batch", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, text=True, errors="replace",
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30)))
        line = r.stdout.rstrip("\n")
        if r.returncode != 0:
            return ("crash", "", ["crash: exit %d" % r.returncode], [])
    except subprocess.TimeoutExpired:
        return ("hang", "", ["no termination within %d s" % timeout], [])
    finally:
        os.remove(f)
    p = line.split("\t")
    return (p[0], p[1], [x for x in p[2].split("\1") if x], [x for x in p[3].split("\1") if x])

def replay_many(rp, rows):
    if any(r[0].startswith("h_cli") for r in rows):
        # these may end their process
        return [replay(rp, *r) for r in rows]
    if len(set(rp[r[0]] for r in rows)) > 1:
        by = {}
        for k, r in enumerate(rows):
            by.setdefault(rp[r[0]], []).append((k, r))
        res = [None] * len(rows)
        for g in by.values():
            for (k, _), x in zip(g, replay_many(rp, [r for _, r in g])):
                res[k] = x
        return res
    f = W + "/many-%d" % os.getpid()
    open(f, "w").write("".join("%s %s %s\n" % r for r in rows))
    try:
        r = subprocess.run([rp[rows[0][0]], "--batch", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120, text=True, errors="replace")
        out = [l.split("\t") for l in r.stdout.split("\n")[:-1]]
    except subprocess.TimeoutExpired:
        out = []
    os.remove(f)
    if len(out) != len(rows):
        return [replay(rp, *r) for r in rows]
    return [(p[0], p[1], [x for x in p[2].split("\1") if x], [x for x in p[3].split("\1") if x]) for p in out]

def show(obs):
    return bytes.fromhex(obs).decode("utf-8", "replace")

def merged(a, b):
    """the reports of two explorations as one"""
    if a is None:
        return b
    for k, v in b.items():
        if k == "functions":
            a[k] = sorted(set(a[k]) | set(v))
        elif k.startswith("max_"):
            a[k] = max(a[k], v)
        elif isinstance(v, (int, float, list)):
            a[k] = a[k] + v
    return a

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    p = props.SELF if pid == "SELF" else props.PROPS[pid]
    spec = p[tier] if tier in p else p["quick"]
    cases, limit = spec["cases"], spec["time"]
    entries = sorted(set(h for h, _ in cases))
    # entry points that need the library built with other features are built and explored on their own
    groups = {}
    for h in entries:
        groups.setdefault(tuple(build.features([h])), []).append(h)
    workers = str(min(8, os.cpu_count() or 8))
    tb, rp, o = 0.0, {}, None
    for k, es in enumerate(groups.values()):
        t1 = time.time()
        eng, ll, bin = build.build_all(es)
        tb += time.time() - t1
        if len(groups) > 1:
            bin = shutil.copy(bin, "%s-%d" % (bin, k))
        rp.update({h: bin for h in es})
        args = ["%s:%d" % (h, c) for h, cs in cases for c in cs if h in es]
        outf = W + "/out-%s.json" % pid
        if os.path.exists(outf):
            os.remove(outf)
        r = subprocess.run([eng, ll, outf, "--workers", workers, "--time", str(limit), "--grace", "3", "--samples", "6",
                            "--steps", str(spec.get("steps", 40000000))] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if not os.path.exists(outf):
            sys.stderr.write(r.stdout[-3000:] + "\nsymbolic executor failed\n")
            sys.exit(2)
        o = merged(o, json.load(open(outf)))
    known = [k for k in json.load(open(V + "/known_findings.json"))["findings"] if k["property"] == pid]

    viol, broken, incomplete, reached, findings = {}, [], [], {}, {}
    for c in o["cases"]:
        h, _, a = c["case"].partition(":")
        for n, k in c["notes"].items():
            reached.setdefault(h, {}).setdefault(n, 0)
            reached[h][n] += k
        for e, k in c["errors"].items():
            incomplete.append("%s: engine: %s x%d" % (c["case"], e[:200], k))
        for e, k in c["limits"].items():
            incomplete.append("%s: limit: %s x%d" % (c["case"], e, k))
        if c["unexplored"]:
            incomplete.append("%s: %d pending subtrees unexplored when time ran out" % (c["case"], c["unexplored"]))
        for f in c["findings"]:
            findings.setdefault(f["code"], []).append((h, a, hexs(f["model"])))
        for v in c["violations"]:
            viol.setdefault(v["code"], []).append((h, a, hexs(v["model"]), v["count"]))

    lines, nviol = [], 0
    rd = W + "/replay"
    os.makedirs(rd, exist_ok=True)
    for code, vrows in sorted(viol.items()):
        done = False
        for (h, a, m, n) in vrows[:3]:
            st, obs, vs, fs = replay(rp, h, a, m)
            if not vs:
                broken.append("%s (%s:%s model %s) does not reproduce natively" % (code, h, a, m))
                continue
            if any("panic: src/" in x for x in vs) and not any("panic: src/" not in x for x in vs):
                broken.append("harness panic: %s" % vs)
                continue
            nviol += 1
            path = "%s/%s-%d.txt" % (rd, pid, nviol)
            open(path, "w").write("property: %s\ncode: %s\nharness: %s %s\nmodel: %s\nnative: %s %s\nreplay: %s %s %s %s\n\n%s\n" % (
                pid, code, h, a, m, st, vs, rp[h], h, a, m, show(obs)))
            if not done:
                lines.append("VIOLATION property=%s replay=%s" % (pid, path))
                print("  %s [%s:%s, %d paths]" % (code, h, a, n))
                print("    " + show(obs)[:600].replace("\n", "\n    "))
            done = True
            break
    # sampled paths: the native build must behave as the symbolic run predicted
    rows, exp = [], []
    for c in o["cases"]:
        h, _, a = c["case"].partition(":")
        for s in c["samples"]:
            rows.append((h, a, hexs(s["model"])))
            exp.append(hexs(s["obs"]))
    validated, samples = 0, []
    for row, e, (st, obs, vs, fs) in zip(rows, exp, replay_many(rp, rows) if rows else []):
        if st == "ok" and obs == e and not vs:
            validated += 1
            if len(samples) < 8:
                samples.append({"harness": row[0], "case": row[1], "model": row[2], "observed": show(obs)[:700]})
        elif not viol:
            broken.append("sampled path %s: native %s %s\n   symbolic %r\n   native   %r" % (row, st, vs, show(e)[:400], show(obs)[:400]))
    # known findings
    kf = 0
    for k in known:
        hit = [(h, a, m) for (h, a, m) in findings.get(k["code"], [])]
        ok = False
        for row in hit[:2]:
            st, obs, vs, fs = replay(rp, *row)
            if k["code"] in fs:
                ok = True
                break
        if ok:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            kf += 1
        else:
            print("note: known finding %s not observed in this run" % k["code"])
    for code, frows in findings.items():
        if code not in [k["code"] for k in known]:
            h, a, m = frows[0]
            st, obs, vs, fs = replay(rp, h, a, m)
            if code in fs:
                nviol += 1
                path = "%s/%s-%d.txt" % (rd, pid, nviol)
                open(path, "w").write("property: %s\ncode: %s\nreplay: %s %s %s %s\n\n%s\n" % (pid, code, rp[h], h, a, m, show(obs)))
                lines.append("VIOLATION property=%s replay=%s" % (pid, path))
                print("  %s [%s:%s]\n    %s" % (code, h, a, show(obs)[:600]))
            else:
                broken.append("finding %s does not reproduce" % code)
    for h in entries:
        for n in p.get("reach", {}).get(h, []):
            if not reached.get(h, {}).get(n) and not lines:
                broken.append("vacuous: %s never reached '%s'" % (h, n))
    total = sum(c["paths"] for c in o["cases"])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total + o["forks"], "transitions": sum(c["instrs"] for c in o["cases"]),
            "traces_validated_against_impl": validated,
            "exhaustive": not incomplete and not viol,
            "samples": samples,
            "technique": "symbolic execution of the LLVM IR rustc emits for json_typegen_shared, its dependencies and std; path conditions and assertions discharged by z3",
            "complete_paths": total,
            "panicking_paths": sum(c["panics"] for c in o["cases"]),
            "symbolic_inputs_max": max([c["vars"] for c in o["cases"]] or [0]),
            "bounds": spec.get("bounds", p["bounds"]), "outside_bounds": p["outside"],
            "cases": [{"case": c["case"], "paths": c["paths"], "instructions": c["instrs"], "vars": c["vars"], "unexplored": c["unexplored"],
                       "reached": c["notes"]} for c in o["cases"]],
            "incomplete": incomplete[:40], "incomplete_count": len(incomplete),
            "forks": o["forks"], "assertions": o["asserts"], "assertions_by_smt": o["asserts_smt"],
            "queries": o["queries"], "sat": o["sat"], "unsat": o["unsat"], "unknown": o["unknown"],
            "queries_by_truth_table_over_one_symbolic_byte": o["truth_tables"], "query_cache_hits": o["query_cache_hits"],
            "solver_s": o["solver_s"], "max_query_s": o["max_query_s"],
            "functions_encoded": len(o["functions"]),
            "functions": sorted(f for f in o["functions"] if "json_typegen_shared" in f or "inflector" in f or "sqlparser" in f or "syn" in f)[:400],
            "known_findings_observed": kf, "build_s": round(tb, 1),
        },
        "assumptions": p["assumptions"] + props.COMMON,
        "wall_s": round(time.time() - t0, 2), "violations": len(lines),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    print("%s %s: %d paths, %.1fM instructions, %d queries (%d unknown, %.1fs solver), %d/%d sampled paths agree natively, %d incomplete, build %.0fs, wall %.0fs" % (
        pid, tier, total, ev["coverage"]["transitions"] / 1e6, o["queries"], o["unknown"], o["solver_s"], validated, len(rows), len(incomplete), tb, ev["wall_s"]))
    for i in incomplete[:6]:
        print("  incomplete: " + i)
    for b in broken[:6]:
        sys.stderr.write("check error: %s\n" % b)
    for l in lines[:8]:
        print(l)
    if lines:
        sys.exit(1)
    if broken:
        sys.exit(2)
    sys.exit(0)
main()
