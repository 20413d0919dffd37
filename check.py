#!/usr/bin/env python3
"""check.py <property>: decides one property from /repo's current sources.

1. Extract the functions of /repo into one Verus file together with the contracts
   (tools/extract, contracts/), and let Verus discharge every obligation.
2. Run the conformance harness against the real code (bounded; it covers what the
   contracts assume: serde, clap, the dependencies, functions outside the verifier's reach).
An obligation tagged with the property that fails, or an input for which the real code
breaks the property, is a violation. See DESIGN.md.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PFP_REPO", "/repo")
BUILD = os.path.join(V, "build") if REPO == "/repo" else "/tmp/pfp-build" + REPO.replace("/", "-")
EXTRACT = f"{BUILD}/extract/release/extract"
HARNESS = f"{BUILD}/harness/debug/harness"
CLI = f"{BUILD}/cli/debug/pfp-cli"
CONTRACTS = f"{V}/contracts"

def sh(cmd, cwd, env=None, timeout=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"

# ---------------------------------------------------------------- builds
def fresh(target):
    """cargo goes by modification times: forget its builds of the sources if their contents changed since"""
    h = hashlib.sha256(REPO.encode())
    for top in ("pfp", "cli"):
        for d, _, fs in sorted(os.walk(f"{REPO}/{top}")):
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")): h.update(f"{d}/{f}\0".encode()); h.update(open(f"{d}/{f}", "rb").read())
    mark = f"{target}/sources"
    if not (os.path.exists(mark) and open(mark).read() == h.hexdigest()):
        for d in glob.glob(f"{target}/debug/.fingerprint/pfp*") + glob.glob(f"{target}/debug/.fingerprint/harness*"): shutil.rmtree(d, ignore_errors=True)
    return mark, h.hexdigest()

def build_fresh(cmd, cwd, target):
    mark, h = fresh(target)
    if os.path.exists(mark): os.remove(mark)
    r = sh(cmd, cwd, {"CARGO_TARGET_DIR": target}, 800)
    if r[0] == 0:
        with open(mark, "w") as f: f.write(h)
    return r

def build_extract():
    return sh(["cargo", "build", "--release", "--offline", "--quiet"], f"{V}/tools/extract", {"CARGO_TARGET_DIR": f"{BUILD}/extract"}, 800)
def build_harness():
    cwd = f"{V}/harness"
    if REPO != "/repo":
        cwd = f"{BUILD}/harness-src"
        os.makedirs(BUILD, exist_ok=True)
        subprocess.run(["rm", "-rf", cwd]); subprocess.run(["cp", "-a", f"{V}/harness", cwd])
        t = open(f"{cwd}/Cargo.toml").read().replace("/repo/", REPO + "/")
        open(f"{cwd}/Cargo.toml", "w").write(t)
    return build_fresh(["cargo", "build", "--offline", "--quiet"], cwd, f"{BUILD}/harness")
def build_cli():
    return build_fresh(["cargo", "build", "--offline", "--quiet", "--locked", "-p", "pfp-cli"], REPO, f"{BUILD}/cli")

def parallel(jobs):
    res = {}
    ts = [threading.Thread(target=lambda n=n, f=f: res.__setitem__(n, f())) for n, f in jobs.items()]
    for t in ts: t.start()
    for t in ts: t.join()
    return res

# ---------------------------------------------------------------- verification
def static_degraded():
    out = {}
    p = f"{CONTRACTS}/degraded.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                k, _, why = l.partition(" ")
                out[k] = why.strip()
    return out

def run_verus(rs, extra, out):
    t = time.time()
    rc, o, e = sh(["verus", rs, "--multiple-errors", "20", "--triggers-mode", "silent", "--output-json", "--time-expanded", "--error-format=json"] + extra, out, None, 500)
    diags = []
    for l in e.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if isinstance(d, dict) and d.get("level") in ("error",) : diags.append(d)
    i = o.find("{")
    try: res = json.loads(o[i:]) if i >= 0 else {}
    except Exception: res = {}
    return {"rc": rc, "diags": diags, "json": res, "stderr": e, "wall": time.time() - t}

def lines_of(d):
    spans = list(d.get("spans", []))
    for c in d.get("children", []): spans += c.get("spans", [])
    return spans

def fn_at(rep, line):
    best = None
    for f in rep["functions"]:
        if f["from"] <= line <= f["to"] and (best is None or f["to"] - f["from"] < best["to"] - best["from"]): best = f
    return best

def is_rlimit(d):
    m = d.get("message", "")
    return "rlimit" in m.lower() or "resource limit" in m.lower()

def hint_at(f, line):
    best = None
    for h in f.get("hints", []):
        if h["from"] <= line <= h["to"] and (best is None or h["to"] - h["from"] < best["to"] - best["from"]): best = h
    return best and best["id"]

def candidates(f, name, hint=None):
    """what a name in a hint may have become in the changed source"""
    m = re.match(r"__(?:acc|i|s|it)(\d+)$", name) or re.match(r"l(\d+)", hint or "")
    muts = dict((k, v) for k, v in f.get("loop_muts") or []).get(int(m.group(1)), []) if m else []
    new, _, old = [x for x in f.get("new_locals") or []], None, []
    if "|" in new: i = new.index("|"); old = new[i + 1:]; new = new[:i]
    accs = [f"__acc{k}" for k in range(f["loops"])]
    new = [x for x in new if x in muts] + [x for x in new if x not in muts]
    old = [x for x in old if x not in new]
    out = [x for x in new if x in muts] + [x for x in old if x in muts] + new + accs + old
    if re.match(r"__i\d+$", name): out = [f"({x} + 1)" for x in new] + new + old
    seen = []
    for x in out:
        if x != name and x not in seen: seen.append(x)
    return seen[:8]

def extract(work, edits, degraded, static, extra_args=()):
    rs, mp, ed = f"{work}/pfp.rs", f"{work}/pfp.json", f"{work}/edits.json"
    json.dump({k: {"drop": sorted(e["drop"]), "sub": [[i, x, y] for (i, x), y in e["sub"].items()]} for k, e in edits.items()}, open(ed, "w"))
    cmd = [EXTRACT, "--repo", REPO, "--contracts", CONTRACTS, "--out", rs, "--map", mp, "--degrade", ",".join(list(static) + list(degraded)), "--edits", ed] + list(extra_args)
    rc, o, e = sh(cmd, V, None, 120)
    if rc != 0: return cmd, rs, None, "extraction failed: " + e[-2000:]
    return cmd, rs, json.load(open(mp)), None

def settled(v):
    res = v["json"].get("verification-results")
    return bool(res and not res.get("encountered-vir-error") and "verified" in res and v["rc"] in (0, 1) and not any((d.get("code") or {}).get("code", "").startswith("E0") for d in v["diags"]))

def where(rs_text, line):
    """module and function of a line of the generated file"""
    mods, depth, name = [], 0, None
    for i, l in enumerate(rs_text[:line]):
        m = re.match(r"\s*pub mod (\w+)\s*\{", l)
        if m and l.count("{") > l.count("}"): mods.append((m.group(1), depth))
        depth += l.count("{") - l.count("}")
        while mods and depth <= mods[-1][1]: mods.pop()
        m = re.search(r"\bfn (\w+)", l)
        if m and "verus!" not in l: name = m.group(1)
    return "::".join(x for x, _ in mods), name

def partial(work, n, key, fname, module, edits, degraded, static, extra_args, flags):
    """verifies one function alone; None if that is impossible"""
    w = f"{work}/try{n}"
    os.makedirs(w, exist_ok=True)
    cmd, rs, rep, why = extract(w, edits, degraded, static, extra_args)
    if rep is None: return None
    sel = (["--verify-only-module", module] if module else ["--verify-root"]) + ["--verify-function", f"*{fname}"]
    v = run_verus(rs, sel + list(flags), w)
    if not settled(v) or not (v["json"]["verification-results"].get("verified", 0) + v["json"]["verification-results"].get("errors", 0)): return None
    errs = [d for d in v["diags"] if lines_of(d)]
    return {"errs": errs, "rep": rep, "wall": v["wall"]}

def verify(work, extra_args=()):
    """Extracts and verifies. Functions the tools cannot take are degraded to their assumed contract;
    proof hints (never contracts) that no longer fit a changed function are repaired or dropped."""
    static = static_degraded()
    degraded = {}                     # key -> reason, beyond the static list
    edits = {}                        # key -> hints dropped, names replaced in hints
    state = {}                        # (key, hint, name) -> candidates left
    log = []
    os.makedirs(work, exist_ok=True)
    total, rounds, typed = 0.0, 0, False
    fail = lambda why: {"ok": False, "why": why, "degraded": degraded, "static": static, "wall": total, "log": log}
    def edit(k): return edits.setdefault(k, {"drop": set(), "sub": {}})
    while rounds < 40:
        rounds += 1
        cmd, rs, rep, why = extract(work, edits, degraded, static, extra_args)
        if rep is None: return fail(why)
        v = run_verus(rs, ["--no-verify"] if typed else [], work)
        total += v["wall"]
        if settled(v):
            if typed: typed = False; continue
            break
        typed = True
        hit, moved = {}, set()
        for d in v["diags"]:
            for s in sorted(lines_of(d), key=lambda s: not s.get("is_primary")):
                if not s.get("file_name", "").endswith("pfp.rs"): continue
                f = fn_at(rep, s["line_start"])
                if not f: continue
                k, h = f["key"], hint_at(f, s["line_start"])
                if h is not None and h not in edit(k)["drop"]:
                    if (k, h) in moved: break
                    m = re.match(r"cannot find value `(\w+)`", d["message"])
                    e = edit(k)
                    if m and (h, m.group(1)) not in e["sub"]:
                        n = m.group(1)
                        # a name the hints themselves introduce: its introduction is gone
                        state[k, h, n] = candidates(f, n, h) if (n in f["base_locals"] or n.startswith("__")) and total < 200 else []
                    else:
                        n = next((n for (kk, hh, n) in state if (kk, hh) == (k, h) and (h, n) in e["sub"] and e["sub"][h, n] in d["message"] + json.dumps(s.get("text", ""))), None) or next((n for (kk, hh, n) in state if (kk, hh) == (k, h)), None)
                    left = state.get((k, h, n), [])
                    if n and left and total < 200: e["sub"][h, n] = left.pop(0)
                    else: e["drop"].add(h)
                    moved.add((k, h))
                    break
                if h is None and k not in degraded and k not in static:
                    hit[k] = "outside the verifier's reach: " + d["message"][:200]
                    break
        # a function with a broken hint may produce follow-up errors: hints first
        hit = {k: w for k, w in hit.items() if k not in {k for k, _ in moved}} or {}
        log.append({"round": rounds, "degrading": hit, "hints": sorted(f"{k} {h}" for k, h in moved), "messages": [d["message"][:200] for d in v["diags"]][:6]})
        if not hit and not moved:
            return fail("verifier: " + "; ".join(d.get("rendered") or d["message"] for d in v["diags"])[:3000] + v["stderr"][-500:] * (not v["diags"]))
        degraded.update(hit)
    else: return fail("no fixed point of degraded functions")
    res = v["json"]["verification-results"]
    errs = [d for d in v["diags"] if lines_of(d)]
    # what fails is tried again alone: other solver seeds, more resources, hints that do not fit any more dropped
    if errs:
        text = open(rs).read().splitlines()
        groups = {}
        for d in errs:
            sp = [s for s in lines_of(d) if s.get("file_name", "").endswith("pfp.rs")]
            sp = [s for s in sp if s.get("is_primary")] + sp
            f = next((f for f in (fn_at(rep, s["line_start"]) for s in sp) if f), None)
            if "precondition" in d["message"] or "postcondition" in d["message"]:
                # the caller or the body: the span inside a function with a body
                f = next((f for f in (fn_at(rep, s["line_start"]) for s in sp) if f and f["status"] == "verified"), f)
            mod, name = where(text, sp[0]["line_start"]) if sp else (None, None)
            if f: mod, name = "::".join(x for x in f["key"].split("::")[:-1] if not x[:1].isupper()), f["key"].split("::")[-1]
            groups.setdefault((f["key"] if f else None, mod, name), []).append(d)
        jobs, n = [], 0
        for (k, mod, name), ds in list(groups.items())[:6]:
            if name is None: continue
            f = next((f for f in rep["functions"] if f["key"] == k), None)
            variants = [(edits, ["--rlimit", "60"]), (edits, ["--rlimit", "30", "--smt-option", "smt.random_seed=7"]), (edits, ["--rlimit", "30", "--smt-option", "smt.random_seed=23"])]
            if f and (f.get("changed") or k in edits):
                bad = {hint_at(f, s["line_start"]) for d in ds if "assertion" in d["message"] or "invariant" in d["message"] for s in lines_of(d) if s.get("is_primary")} - {None}
                def with_(fn):
                    import copy
                    e = copy.deepcopy(edits); fn(e.setdefault(k, {"drop": set(), "sub": {}})); return e
                if bad: variants.append((with_(lambda e: e["drop"].update(bad)), ["--rlimit", "30"]))
                alts = [(h, nm) for (kk, h, nm) in state if kk == k and (h, nm) in edits.get(k, {}).get("sub", {})]
                names = {nm for _, nm in alts}
                for nm in names:
                    left = [c for (kk, h, x) in state if kk == k and x == nm for c in state[kk, h, x]]
                    for c in sorted(set(left), key=left.index)[:6]:
                        def sub(e, nm=nm, c=c):
                            for h, x in alts:
                                if x == nm: e["sub"][h, x] = c
                        variants.append((with_(sub), ["--rlimit", "30"]))
            for e, fl in variants: jobs.append(((k, mod, name), n, e, fl)); n += 1
        done, best = {}, {}
        def one(j):
            (k, mod, name), n, e, fl = j
            if best.get((k, mod, name)) is not None: return
            r = partial(work, n, k, name, mod, e, degraded, static, extra_args, fl)
            if r is not None and not r["errs"]: best.setdefault((k, mod, name), e)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(6) as ex: list(ex.map(one, jobs))
        for g, e in best.items():
            for d in groups[g]: errs.remove(d)
            log.append({"settled alone": g[0] or g[2], "edits": {h: y for (h, x), y in e.get(g[0], {"sub": {}})["sub"].items()} if g[0] in e else {}})
            if g[0]:
                for f in rep["functions"]:
                    if f["key"] == g[0]: f["lost"] = []
        if best: res = {**res, "verified": res["verified"] + len(best), "errors": max(0, res.get("errors", 0) - len(best))}
    return {"ok": True, "rep": rep, "res": res, "errs": errs, "v": v, "degraded": degraded, "static": static, "rounds": rounds, "wall": total, "rs": rs, "cmd": cmd, "log": log, "edits": edits}

def failures(r):
    """(function, obligation label, tags, rendered, decided) for every failing obligation"""
    out = []
    for d in r["errs"]:
        spans = [s for s in lines_of(d) if s.get("file_name", "").endswith("pfp.rs")]
        prim = [s for s in spans if s.get("is_primary")] or spans
        f = None
        for s in prim + spans:
            f = fn_at(r["rep"], s["line_start"])
            if f: break
        clause = None
        if f:
            for s in spans:
                for c in f["clauses"]:
                    if c["from"] <= s["line_start"] <= c["to"] and c["kind"] in ("ensures", "requires", "invariant", "post"): clause = c
            # trait contracts: the clause may lie at the declaration
            if clause is None:
                for s in spans:
                    g = fn_at(r["rep"], s["line_start"])
                    if g and g["key"] != f["key"] and "postcondition" in d["message"]:
                        for c in g["clauses"]:
                            if c["from"] <= s["line_start"] <= c["to"]: clause = c
        if f is None:
            out.append({"fn": None, "label": d["message"], "tags": None, "text": d.get("rendered", d["message"]), "decided": False})
            continue
        tags = f["tags"]
        label = d["message"]
        if clause:
            label += f": {clause['label']}" if clause.get("label") else ""
            if clause["kind"] == "ensures" and clause.get("tags") and "postcondition" in d["message"]: tags = clause["tags"]
            if clause["kind"] == "post" and clause.get("tags"): tags = clause["tags"]
        intact = not f["lost"] and not is_rlimit(d)
        out.append({"fn": f["key"], "label": label, "tags": tags, "text": d.get("rendered", d["message"]), "decided": intact})
    return out

# ---------------------------------------------------------------- harness
def harness(pid, seed, budget, work, threads=8, case=None):
    cmd = [HARNESS, "--property", pid, "--seed", str(seed), "--budget", str(budget), "--threads", str(threads), "--scratch", f"{work}/scratch-{os.getpid()}-{budget}"]
    if os.path.exists(CLI): cmd += ["--cli", CLI]
    if case: cmd += ["--case", case]
    rc, o, e = sh(cmd, work, None, budget * 2 + 90)
    try: j = json.loads(o.strip().splitlines()[-1])
    except Exception: return {"error": f"harness ended with {rc}: {e[-500:]}", "cmd": cmd}
    j["cmd"] = cmd
    own = [v for v in j["violations"] if "harness" in v["tags"]]
    if own: j["error"] = own[0]["what"]
    j["violations"] = [v for v in j["violations"] if pid in v["tags"]]
    return j

# ---------------------------------------------------------------- known findings
def known(pid):
    out = []
    p = f"{V}/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = f"{BUILD}/run-{pid}"
    os.makedirs(work, exist_ok=True)
    os.makedirs(f"{V}/evidence/replay", exist_ok=True)
    builds = parallel({"extract": build_extract, "harness": build_harness, "cli": build_cli})
    if builds["cli"][0] != 0 and os.path.exists(CLI): os.remove(CLI)
    have_h = builds["harness"][0] == 0
    budget = {"quick": 14, "thorough": 300}[tier]
    box = {}
    ht = threading.Thread(target=lambda: box.__setitem__("h", harness(pid, seed, budget, work, 6)))
    if have_h: ht.start()
    r = verify(work) if builds["extract"][0] == 0 else {"ok": False, "why": "extractor build: " + builds["extract"][2][-500:], "degraded": {}, "static": {}, "wall": 0, "log": []}
    if have_h: ht.join()
    h = box.get("h", {"error": "harness build failed: " + builds["harness"][2][-800:]})
    fails = failures(r) if r["ok"] else []
    mine = [f for f in fails if f["tags"] is None or pid in f["tags"]]
    decided = [f for f in mine if f["decided"]]
    hv = h.get("violations", [])
    if mine and not hv and have_h:
        # look for a real input that shows what the failed obligation means
        h2 = harness(pid, seed + 7919, 60 if tier == "quick" else 300, work)
        hv = h2.get("violations", [])
        if hv: h = h2
    lines, replay = [], None
    kf = known(pid)
    if hv:
        left = [v for v in hv if not any(k in v["what"] + " " + v["input"] for k, _ in kf)]
        if left:
            replay = f"{V}/evidence/replay/{pid}.txt"
            with open(replay, "w") as f:
                f.write(f"property {pid}: the real code breaks it on this input\n\n")
                for v in left: f.write(f"WHAT  {v['what']}\nINPUT {v['input']}\n\n")
                for g, s in h.get("cases", [])[:5]: f.write("REPLAY " + " ".join(h["cmd"]) + f" --case {g}:{s}\n")
                for x in mine: f.write(f"\nFAILED OBLIGATION {x['fn']}: {x['label']}\n{x['text']}\n")
            lines.append(f"VIOLATION property={pid} replay={replay}")
    elif decided:
        replay = f"{V}/evidence/replay/{pid}.txt"
        with open(replay, "w") as f:
            f.write(f"property {pid}: the verifier rejects these obligations; no failing input was found\nverifier: verus {r['rs']}\n")
            for x in decided: f.write(f"\nFAILED OBLIGATION {x['fn']}: {x['label']}\n{x['text']}\n")
        lines.append(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
    for k, what in kf: lines.append(f"KNOWN-FINDING: property={pid} {what}")

    # ------------------------------------------------------------ evidence
    man = {c["property"]: c for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]}
    level = man.get(pid, {}).get("level", "proof")
    fns, obligations, undischarged, assumed = [], 0, 0, []
    if r["ok"]:
        bad = {}
        for f in fails: bad[f["fn"]] = bad.get(f["fn"], 0) + 1
        for f in r["rep"]["functions"]:
            if pid not in f["tags"]: continue
            n = 1 + len([c for c in f["clauses"] if c["kind"] != "requires"])
            if f["status"] == "verified":
                obligations += n
                undischarged += min(n, bad.get(f["key"], 0))
                fns.append(f["key"])
            elif f["key"] in r["degraded"]:
                obligations += n; undischarged += n
            if f["status"] != "verified": assumed.append(f"{f['key']}: contract assumed ({r['degraded'].get(f['key']) or r['static'].get(f['key']) or 'trusted: ' + f['status']})")
    cov = {
        "obligations": obligations, "discharged": obligations - undischarged,
        "obligation_rule": "per function under contract that carries the property: each postcondition (those over the terminal transcript once per exit) and loop invariant clause, plus one for its body (no panic, no overflow, preconditions of every callee)",
        "checker_cmd": " ".join(r["cmd"]) + f" && verus {r['rs']} --multiple-errors 20" if r["ok"] else "",
        "backend": "Verus 0.2026.09.13 / Z3 4.12 (bundled)",
        "functions_under_contract": fns,
        "trusted_base": ["Verus and its Z3", "tools/extract (mechanical extraction, see DESIGN.md)", "contracts/shim.rs (assumed contracts of std, serde_json, AES-GCM, HMAC, scrypt, base64, rand, enumset, wildmatch, secrecy)"] + assumed,
        "verus_total": r["res"] if r["ok"] else {"error": r["why"][:500]},
        "verus_wall_s": round(r["wall"], 1),
        "failed_obligations": [f"{f['fn']}: {f['label']}" for f in mine],
        "not_decided": [f"{f['fn']}: {f['label']}" for f in mine if not f["decided"]] + [f"{k}: {w}" for k, w in r["degraded"].items()] + ([] if r["ok"] else [r["why"][:300]]),
        "bounded_conformance": {"label": "bounded, not counted as proved", "seconds": h.get("seconds"), "groups": h.get("groups"), "error": h.get("error")},
        "evaluations": h.get("evaluations", 0), "distinct_nontrivial": h.get("distinct", 0),
        "rule": "harness cases (harness/src) generated from the seed; two cases are the same if their complete description is",
        "samples": h.get("samples", [])[:6],
        "explanation": f"{obligations} obligations in {len(fns)} functions under contract by Verus; bounded conformance run of {h.get('evaluations', 0)} cases for what the contracts assume",
    }
    if r["ok"]:
        t = r["v"]["json"].get("times-ms", {})
        cov["solver_time_ms"] = (t.get("smt") or {}).get("total") if isinstance(t.get("smt"), dict) else t.get("smt")
    if tier == "thorough" and r["ok"]:
        cov["vacuity"] = vacuity(work, pid, r)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": json.load(open(f"{V}/assumptions.json")).get("all", []) + json.load(open(f"{V}/assumptions.json")).get(pid, []) if os.path.exists(f"{V}/assumptions.json") else [],
          "wall_s": round(time.time() - t0, 1), "violations": len([l for l in lines if l.startswith("VIOLATION")])}
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid}: {cov['explanation']}; failed: {len(mine)}, wall {ev['wall_s']} s")
    for n in cov["not_decided"]: print("  not decided:", n)
    for l in lines: print(l)
    sys.exit(1 if ev["violations"] else 0)

def vacuity(work, pid, r):
    """With `assert(false)` at the start of every function under contract, every one must fail:
    otherwise its precondition is contradictory and its proof means nothing."""
    out = f"{work}/vac"
    os.makedirs(out, exist_ok=True)
    cmd = list(r["cmd"]) + ["--vacuity", "start"]
    cmd[cmd.index("--out") + 1] = f"{out}/pfp.rs"; cmd[cmd.index("--map") + 1] = f"{out}/pfp.json"
    rc, o, e = sh(cmd, V, None, 120)
    if rc: return {"error": e[-300:]}
    rep = json.load(open(f"{out}/pfp.json"))
    v = run_verus(f"{out}/pfp.rs", [], out)
    hit = set()
    for d in v["diags"]:
        for s in lines_of(d):
            f = fn_at(rep, s["line_start"])
            if f: hit.add(f["key"])
    want = [f["key"] for f in rep["functions"] if f["status"] == "verified" and pid in f["tags"]]
    return {"probed": len(want), "vacuous": [k for k in want if k not in hit]}

if __name__ == "__main__": main()
