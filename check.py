#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current working tree.

1. extract:  rustc expands /repo/src; tool/ attaches contracts/*.vspec to the extracted functions.
2. prove:    verus discharges every obligation (the deciding step).
3. search:   harness/ looks for a concrete failing input against the real crate; it supplies the replay for a failed
             obligation, and a bounded stand-in for functions the verifier cannot take (never counted as proved).
Exit 0: holds. Exit 1 with a VIOLATION line: broken.
"""
import json, os, re, subprocess, sys, time, concurrent.futures as cf, fcntl

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
PROP = sys.argv[1]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv else "quick"
CPUS = os.cpu_count() or 4
T0 = time.time()
W = f"{V}/work/{PROP}"
os.makedirs(W, exist_ok=True)
os.makedirs(f"{V}/evidence", exist_ok=True)
LOG = []


def log(*a):
    s = " ".join(str(x) for x in a)
    LOG.append(s)
    print(s, flush=True)


def sh(cmd, timeout=600, cwd=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=e, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return -9, "", "timeout"


def build(name, timeout=800):
    with open(f"{V}/work/{name}.lock", "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        return sh(["cargo", "build", "--offline", "--quiet"], timeout, f"{V}/{name}", {"RUSTFLAGS": "-Awarnings"})


# ---------------------------------------------------------------- extraction and proof
class Proof:
    def __init__(self):
        self.ok = False  # the verifier ran and gave a verdict
        self.why = ""
        self.errors = []  # attributed failures
        self.unsupported = {}  # function -> reason
        self.out = {}
        self.verified = self.failed = 0
        self.smt_ms = 0
        self.units = []
        self.lines = []
        self.passes = 0
        self.again = []  # functions whose obligations another solver seed discharged
        self.vacuity = None


def spans(d):
    r = list(d.get("spans", []))
    for c in d.get("children", []):
        r += c.get("spans", [])
    return r


TOOL = f"{V}/tool/target/debug/vextract"


def generate(p, contracts, unsup):
    uf = f"{W}/unsupported.txt"
    with open(uf, "w") as f:
        for k, v in unsup.items():
            f.write(f"{k}\t{v}\n")
    rc, o, e = sh([TOOL, f"{W}/x.rs", contracts, f"{W}/out.rs", f"{W}/out.json", uf], 120)
    if rc != 0:
        p.why = "extraction failed: " + (e or o)[-600:]
        return False
    p.out = json.load(open(f"{W}/out.json"))
    p.lines = open(f"{W}/out.rs").read().split("\n")
    return True


def function_at(p, line):
    best = None
    for f in p.out["functions"]:
        if f["start"] <= line <= f["end"] and (best is None or f["start"] >= best["start"]):
            best = f
    return best


def clause_at(p, line):
    best = None
    for c in p.out["clauses"]:
        if c["start"] <= line <= c["end"] and (best is None or c["start"] >= best["start"]):
            best = c
    return best


def verus(extra=(), timeout=420):
    return sh(["verus", "--crate-type", "lib", "out.rs", "--rlimit", "60", "--multiple-errors", "20", "--output-json", "--time", "--error-format=json", *extra], timeout, W)


def diagnostics(err):
    r = []
    for l in err.split("\n"):
        l = l.strip()
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level", "").startswith("error"):
                r.append(d)
    return r


PROOF_MSG = re.compile(
    r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|assertion failure|arithmetic|decreases not satisfied|"
    r"recommendation|could not prove|unable to prove|may fail|split |loop ensures|ensures not satisfied|requires not satisfied|unwind|possible|cannot show|loop invariant|assert_by|decreases"
)
RLIMIT = re.compile(r"[Rr]esource limit|rlimit|while loop: Resource|timed out|timeout")


def retry(p, functions):
    """The functions whose obligations all go through with another solver seed: a query the solver
    gives up on is not a refutation, and any accepted proof is a proof."""
    left = set(functions)
    mods = sorted({f.split("::")[0] for f in left})
    only = [x for m in mods for x in ("--verify-only-module", m)]
    t0 = time.time()
    seeds = iter(range(1, 7))
    while left and time.time() - t0 < 90:
        ks = [k for _, k in zip(range(2), seeds)]
        if not ks:
            break
        with cf.ThreadPoolExecutor(2) as ex:
            for rc, o, e in ex.map(lambda k: verus(["--smt-option", f"smt.random_seed={k}", "--smt-option", f"sat.random_seed={k}", *only], 120), ks):
                try:
                    if "verified" not in json.loads(o)["verification-results"]:
                        continue
                except (ValueError, KeyError):
                    continue
                bad = set()
                for d in diagnostics(e):
                    for s in spans(d):
                        f = function_at(p, s["line_start"])
                        if f:
                            bad.add(f["path"])
                left &= bad
    return set(functions) - left


def prove(contracts=f"{V}/contracts"):
    p = Proof()
    rc, o, e = build("tool")
    if rc != 0:
        p.why = "the extraction tool does not build: " + e[-400:]
        return p
    rc, o, e = sh(
        ["rustc", "-Zunpretty=expanded", "--edition", "2021", "--crate-type", "lib", "--crate-name", "parse_proof_of_concept", f"{REPO}/src/lib.rs"],
        120, W, {"RUSTC_BOOTSTRAP": "1"})
    if rc != 0:
        p.why = "rustc cannot expand /repo/src: " + e[-600:]
        return p
    open(f"{W}/x.rs", "w").write(o)
    unsup = {}
    for attempt in range(8):
        p.passes = attempt + 1
        if not generate(p, contracts, unsup):
            return p
        rc, o, e = verus()
        open(f"{W}/verus.err", "w").write(e)
        ds = diagnostics(e)
        try:
            res = json.loads(o)
        except ValueError:
            res = {}
        vr = res.get("verification-results", {})
        proofs = [d for d in ds if PROOF_MSG.search(d["message"]) and not d.get("code")]
        limits = [d for d in ds if RLIMIT.search(d["message"]) and not d.get("code") and d not in proofs]
        others = [d for d in ds if d not in proofs and d not in limits and spans(d)]
        if rc == -9:
            p.why = "the verifier gave no answer in time"
            return p
        if others:
            # the verifier cannot take some function: bounded stand-in for that one
            new = {}
            for d in others:
                for s in sorted(spans(d), key=lambda s: not s.get("is_primary")):
                    f = function_at(p, s["line_start"])
                    if f and f["path"] not in unsup and f["status"] != "unsupported":
                        new[f["path"]] = "not accepted by verus: " + d["message"].replace("\n", " ")[:160]
                        break
            if not new:
                p.why = "verus rejects the extracted code: " + "; ".join(d["message"][:200] for d in others[:3])
                return p
            unsup.update(new)
            log("verifier cannot take:", "; ".join(f"{k} ({v})" for k, v in new.items()))
            continue
        if limits:
            new = {}
            for d in limits:
                for s in spans(d):
                    f = function_at(p, s["line_start"])
                    if f:
                        new[f["path"]] = "verus ran out of its resource limit"
            for k in retry(p, new):
                p.again.append(k)
                new.pop(k)
            if new and not set(new) <= set(unsup):
                unsup.update(new)
                log("resource limit:", ", ".join(new))
                continue
            if new or not p.again:
                p.why = "verus ran out of its resource limit"
                return p
        if "verified" not in vr:
            p.why = "no verdict from verus: " + (e or o)[-400:]
            return p
        break
    else:
        p.why = "too many functions outside the verifier's reach"
        return p
    p.ok = True
    p.verified, p.failed = vr["verified"], vr["errors"]
    try:
        p.smt_ms = res["times-ms"]["smt"]["total"]
        for m in res["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m["function-breakdown"]:
                p.units.append((f["function"], f["success"], f.get("time-micros", 0)))
    except (KeyError, TypeError):
        pass
    p.unsupported = {f["path"]: f["reason"] for f in p.out["functions"] if f["status"] == "unsupported" and f["reason"] and not f["reason"].startswith("no contract (inlined")}
    p.errors = attribute(p, proofs)
    fs = {e["function"] for e in p.errors} - {"?"}
    if fs:
        p.again += sorted(retry(p, fs))
        p.errors = [e for e in p.errors if e["function"] not in p.again]
    n = min(len(set(p.again)), p.failed)
    p.verified, p.failed = p.verified + n, p.failed - n
    return p


def attribute(p, ds):
    out = []
    for d in ds:
        ss = spans(d)
        site = None
        clause = None
        for s in ss:
            lab = s.get("label") or ""
            if "failed this postcondition" in lab or "failed precondition" in lab or "failed this" in lab:
                clause = clause_at(p, s["line_start"]) or clause
        for s in sorted(ss, key=lambda s: not s.get("is_primary")):
            lab = s.get("label") or ""
            if "failed this postcondition" in lab or "failed precondition" in lab:
                continue
            site = function_at(p, s["line_start"])
            if site:
                break
        if site is None:
            for s in ss:
                site = function_at(p, s["line_start"])
                if site:
                    break
        m = d["message"]
        e = {"message": m, "function": site["path"] if site else "?", "clause": None, "props": [], "soft": False, "text": d.get("rendered", "")}
        sem = {}
        for x in (site or {}).get("sem", []):
            k, v = x.split("=")
            sem[k] = v.split(",")  # `C04?`: follows from this clause, but is not what it states
        props = (site or {}).get("props", [])
        if clause:
            e["clause"] = f"{clause['kind']} [{' '.join(clause['tags'])}] {clause['text']}"
        if "precondition" in m:
            t = [x for x in (clause or {}).get("tags", []) if re.fullmatch(r"C\d\d", x)]
            if clause is None:
                t = ["C23"]
                e["soft"] = False
            e["props"] = t or props
            if clause is not None and not t:
                e["soft"] = True
        elif "postcondition" in m and clause:
            t = []
            for x in clause["tags"]:
                if re.fullmatch(r"C\d\d", x):
                    t.append(x)
                elif x in sem:
                    t += sem[x]
                elif x == "all":
                    pass
                else:
                    t += props
            e["tags"] = clause["tags"]
            e["props"] = t
            if not t:
                e["soft"] = True
                e["props"] = [] if "all" in clause["tags"] else props
        elif "arithmetic" in m or "overflow" in m or "underflow" in m:
            e["props"] = ["C23"]
        elif "postcondition" in m and site and "failed this" in "".join(s.get("label") or "" for s in ss):
            # the contract of a library trait (an iterator, a comparison, a clone)
            e["props"] = props
        else:
            e["props"] = props
            e["soft"] = True
        e["weak"] = sorted({x[:-1] for x in e["props"] if x.endswith("?")})
        e["props"] = [x for x in e["props"] if not x.endswith("?")]
        out.append(e)
    # the position after a failure is C01's business: a clause about all positions fails with it
    c01 = {e["function"] for e in out if "C01" in e.get("tags", [])}
    for e in out:
        if e["function"] in c01 and e.get("tags") == ["pos"]:
            e["props"] = ["C01"]
    return out


# ---------------------------------------------------------------- search on the real code
H = f"{V}/harness/target/debug/harness"


class Search:
    def __init__(self):
        self.ran = False
        self.why = ""
        self.cases = 0
        self.per = {}
        self.found = None


def search(prop, secs, procs, salt=0):
    r = Search()
    rc, o, e = build("harness")
    if rc != 0:
        r.why = "the harness does not build against /repo: " + e[-400:]
        return r

    def go(k):
        seed = (SEED * 1000003 + salt * 7919 + k * 104729) & 0x7FFFFFFF
        return sh([H, prop, str(seed), str(secs)], secs + 120)

    r.ran = True
    with cf.ThreadPoolExecutor(procs) as ex:
        for rc, o, e in ex.map(go, range(procs)):
            m = re.search(r"CASES (\d+) (\{.*\})", o)
            if rc == 0 and m:
                r.cases += int(m.group(1))
                for k, v in json.loads(m.group(2)).items():
                    r.per[k] = r.per.get(k, 0) + v
            elif rc == 1 and "FOUND" in o:
                r.found = r.found or o[o.index("FOUND"):]
            elif rc == 4 and "RUNAWAY" in o:
                m = re.search(r"RUNAWAY (\w+) suite=(\w+) case=(\d+)", o)
                rc2, o2, e2 = sh([H, "--relevant", prop, m.group(2)], 20)
                if rc2 == 0:
                    r.found = r.found or f"FOUND suite={m.group(2)} case={m.group(3)}\nthe call does not return ({m.group(1)} limit)\n"
                else:
                    r.why = "a case of another property did not return: " + m.group(0)
            else:
                r.why = f"harness ended with {rc}: {(o + e)[-300:]}"
    return r


# ---------------------------------------------------------------- main
def title():
    for l in open(f"{V}/properties.jsonl"):
        d = json.loads(l)
        if d["id"] == PROP:
            return d["title"]
    sys.exit(f"unknown property {PROP}")


def replay(kind, text):
    path = f"{W}/replay.txt"
    with open(path, "w") as f:
        f.write(f"property: {PROP} {title()}\nkind: {kind}\n\n{text}\n")
    return path


def main():
    name = title()
    known = []
    kf = f"{V}/known-findings.txt"
    if os.path.exists(kf):
        known = [l.strip() for l in open(kf) if l.startswith("KNOWN-FINDING:") and f"property={PROP} " in l]
    base = 12 if TIER == "quick" else 240
    with cf.ThreadPoolExecutor(2) as ex:
        fp = ex.submit(prove)
        fs = ex.submit(search, PROP, base, max(2, CPUS // 2))
        p, s = fp.result(), fs.result()
    direct = [e for e in p.errors if PROP in e["props"] and not e["soft"]]
    soft = [e for e in p.errors if PROP in e["props"] and e["soft"]]
    hard = [e for e in p.errors if e["props"] and not e["soft"]]
    weak = [e for e in p.errors if PROP in e["weak"] and e not in direct and e not in soft]
    mine = {f["path"] for f in p.out.get("functions", []) if concerns(p, f)}
    lost = {k: v for k, v in p.unsupported.items()}
    shaky = helper_calls(p)
    # a proof that failed, or a function the verifier could not take: look harder for a concrete input
    other = None
    if s.ran and not s.found and (not p.ok or p.errors or lost):
        extra = 60 if TIER == "quick" else 240
        if direct or soft or weak or not p.ok or set(lost) & mine:
            s2 = search(PROP, extra, CPUS, 1)
        else:
            s2 = search(PROP, 20, CPUS, 1)
        s.cases += s2.cases
        s.found = s2.found
        if not s.found and (soft or weak) and not direct:
            other = search("any", 30, CPUS, 2).found
    code = 0
    verdict = ""
    if s.found:
        first = s.found.split("\n")
        m = re.search(r"suite=(\w+) case=(\d+)", first[0])
        cmd = f"{H} --case {PROP} {m.group(1)} {m.group(2)}"
        obl = "\n".join(f"failed obligation: {e['function']}: {e['message']}: {e['clause']}" for e in direct + soft + weak)
        path = replay("failing input on the real code", f"{s.found}\nrun again (after `cargo build --offline` in {V}/harness): {cmd}\n\n{obl or 'no obligation of this property failed in the verifier'}")
        log(f"failing input: {' '.join(first[1:2])}")
        for e in direct + soft + weak:
            log(f"failed obligation: {e['function']}: {e['message']}: {e['clause']}")
        verdict = f"VIOLATION property={PROP} replay={path}"
        code = 1
    else:
        bad = [e for e in direct if e["function"] not in shaky]
        if not bad and soft and not hard and not other:
            bad = [e for e in soft if e["function"] not in shaky]
        if not bad and weak and not other:
            bad = [e for e in weak if e["function"] not in shaky]
        if bad:
            for e in bad:
                log(f"failed obligation: {e['function']}: {e['message']}: {e['clause']}")
            path = replay("failed proof obligation, no failing input found",
                          "\n".join(f"failed obligation: {e['function']}: {e['message']}\n  {e['clause']}\n{e['text']}" for e in bad)
                          + f"\nre-run: cd {W} && verus --crate-type lib out.rs\nsearched {s.cases} cases on the real code without a difference")
            verdict = f"VIOLATION property={PROP} replay={path} no-failing-input-found"
            code = 1
        elif p.errors:
            log("obligations failed that do not state this property, or in functions restructured beyond their contract; bounded search stands in:",
                "; ".join(sorted({e["function"] for e in p.errors})))
    if not p.ok:
        log("no proof on this tree:", p.why)
    if lost and p.ok:
        log("bounded, not proved:", "; ".join(f"{k} ({v})" for k, v in sorted(lost.items())))
    for k in known:
        print(k)
    if TIER == "thorough" and p.ok and not verdict:
        p.vacuity = vacuity(p)
        log("vacuity self-test:", json.dumps(p.vacuity))
    evidence(p, s, mine, lost, code)
    if verdict:
        print(verdict, flush=True)
    else:
        log(f"{PROP} {name}: holds ({p.verified} proof obligations discharged, {s.cases} cases searched, {time.time() - T0:.0f} s)")
    sys.exit(code)


REACHABLE = {("exit", "combinator::OrNot::parse_internal", 2)}  # or_not ends in none(), which cannot fail: two exits are dead code


def vacuity(p):
    """self-test: assert(false) at the start / at every end of every function has to fail, else its contract is vacuous"""
    r = {}
    for mode in ("entry", "exit"):
        rc, o, e = sh([TOOL, f"{W}/x.rs", f"{V}/contracts", f"{W}/vac.rs", f"{W}/vac.json", f"{W}/unsupported.txt"], 120, None, {"VP_VACUITY": mode})
        if rc:
            return {"error": (e or o)[-300:]}
        rc, o, e = sh(["verus", "--crate-type", "lib", "vac.rs", "--rlimit", "60", "--multiple-errors", "40", "--error-format=json"], 600, W)
        hit = {s["line_start"] for d in diagnostics(e) if "assertion failed" in d["message"] for s in spans(d)}
        L = open(f"{W}/vac.rs").read().split("\n")
        fn = json.load(open(f"{W}/vac.json"))["functions"]
        n, bad = 0, {}
        for i, l in enumerate(L, 1):
            if "proof { assert(false); }" in l:
                n += 1
                if i not in hit:
                    w = max((f for f in fn if f["start"] <= i <= f["end"]), key=lambda f: f["start"], default={"path": "?"})["path"]
                    bad[w] = bad.get(w, 0) + 1
        bad = {k: v for k, v in bad.items() if (mode, k, v) not in REACHABLE}
        r[mode] = {"asserted_false": n, "not_refuted": bad}
    return r


def concerns(p, f):
    if PROP in f["props"]:
        return True
    if any(PROP in x.split("=")[1].replace("?", "").split(",") for x in f["sem"]):
        return True
    return any(c["fn"] == f["path"] and PROP in c["tags"] for c in p.out["clauses"])


def helper_calls(p):
    """functions that call a function of /repo which has no contract (a helper someone extracted)"""
    r = set()
    unc = p.out.get("uncontracted", {}) if p.out else {}
    if not unc:
        return r
    pat = re.compile(r"\b(" + "|".join(re.escape(k) for k in unc) + r")\s*(::<[^(]*>)?\(")
    for f in p.out["functions"]:
        body = "\n".join(p.lines[f["start"] - 1:f["end"]])
        own = f["path"].split("::")[-1]
        if any(m.group(1) != own for m in pat.finditer(body)):
            r.add(f["path"])
    return r


def assumed(lines):
    """the items of the verified text whose body is not checked (external_body)"""
    r, head = [], ""
    for i, l in enumerate(lines):
        m = re.match(r"\s*(?:pub )?(impl\b.*|trait .*)", l)
        if m:
            head = re.sub(r"\s+", " ", m.group(1).split("{")[0]).strip()
            if l.count("{") == l.count("}") and "external_body" not in l:
                head = ""
        elif l.startswith("}"):
            head = ""
        if "external_body" not in l or l.lstrip().startswith("//"):
            continue
        rest = " ".join(lines[i:i + 5]).split("external_body", 1)[1]
        m = re.search(r"\b(?:proof )?(fn|struct) (\w+)", rest)
        if m:
            r.append((f"{head} :: " if head else "") + f"{m.group(1)} {m.group(2)}")
        if l.count("{") == l.count("}"):
            head = head if not l.lstrip().startswith("impl") else ""
    return r


def evidence(p, s, mine, lost, code):
    fns = p.out.get("functions", [])
    cl = [c for c in p.out.get("clauses", [])]
    # a derived or hand-written clone() is under the contract of the trait: the clone equals the original
    under = sorted(f["path"] for f in fns if f["status"] == "verified" and (f["contract"] or f["path"].endswith("::clone")))
    trusted = sorted(f["path"] for f in fns if f["status"] == "trusted")
    text = "\n".join(p.lines)
    ext = len(re.findall(r"external_body", text))
    assume = len(re.findall(r"\bassume\(", text))
    admit = len(re.findall(r"\badmit\(", text))
    tb = list(TRUST) + [f"assumed item: {a}" for a in assumed(p.lines)] + [f"trusted function: {t}" for t in trusted] + [f"bounded stand-in (not proved): {k}: {v}" for k, v in sorted(lost.items())]
    cov = {
        "obligations": p.verified + p.failed,
        "discharged": p.verified,
        "checker_cmd": f"cd {W} && verus --crate-type lib out.rs --rlimit 60 --multiple-errors 20",
        "trusted_base": tb,
        "backend": "Verus, Z3 as shipped with it",
        "solver_ms": p.smt_ms,
        "verification_units": len(p.units),
        "functions_extracted": len(fns),
        "functions_under_contract": len(under),
        "functions_of_this_property": sorted(mine),
        "clauses_tagged_with_this_property": sum(1 for c in cl if PROP in c["tags"])
        + sum(1 for f in fns for x in f["sem"] if PROP in x.split("=")[1].replace("?", "").split(",")),
        "contract_clauses": len(cl),
        "extraction_rules_applied": p.out.get("rules", []),
        "extraction_dropped": [f"{d['item']}: {d['reason']}" for d in p.out.get("dropped", [])],
        "external_body_items_in_verified_text": ext,
        "assume_statements": assume,
        "admit_statements": admit,
        "bounded_functions": sorted(lost),
        "bounded_search": {"cases": s.cases, "per_suite": s.per, "note": s.why or "random cases against an executable oracle on the real crate; bounded, never counted as proved"},
        "failed_obligations": [f"{e['function']}: {e['message']}: {e['clause']} -> {','.join(e['props'])}" for e in p.errors],
        "passes": p.passes,
        "discharged_with_another_solver_seed": sorted(set(p.again)),
        "vacuity_self_test": p.vacuity or "run in the thorough tier",
        "proof_note": p.why,
    }
    level = "proof" if p.ok else "exploration"
    if not p.ok:
        cov["evaluations"] = s.cases
        cov["distinct_nontrivial"] = s.cases
        cov["rule"] = "random parsers, grammars, inputs and strategies per suite, each compared with the oracle"
        cov["samples"] = [k for k in s.per][:5] or ["none"]
    ev = {"property": PROP, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": ASSUME, "wall_s": round(time.time() - T0, 2), "violations": code}
    json.dump(ev, open(f"{V}/evidence/{PROP}.json", "w"), indent=1)


TRUST = [
    "Verus and Z3",
    "rustc's macro expansion and the extraction tool in tool/ (rules R0-R17, listed in DESIGN.md)",
    "std's Vec, VecDeque, HashSet, String, Rc, Weak, RefCell, Formatter, iterators and adapters behave as contracts/00_shim.vspec states (most of these contracts are discharged there on a reference implementation, so they are consistent; the rest are listed as assumed items)",
    "uninterpreted user code: closures, error type, tracker and token source are deterministic and satisfy the trait contracts in 20_stream, 30_error, 10_location",
]
ASSUME = [
    "usize arithmetic is checked at its real width by the verifier; lengths of Vec/VecDeque stay below usize::MAX",
    "user-supplied closures, Clone, PartialEq, Error and location Tracker implementations are deterministic, total functions of their arguments",
    "user-supplied PartialEq is symmetric (the law Rust documents for ==)",
    "the token source is finite; memory allocation succeeds",
]

main()
