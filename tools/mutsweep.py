#!/usr/bin/env python3
"""Mutation sweep (development aid, not a check): mutate /repo's sources in scratch copies under /tmp/mw, keep the mutants that
compile and pass the existing tests, and report which quick checks (scaled down) catch them.
usage: mutsweep.py WORKER NWORKERS OUT.jsonl [file regex]"""
import os, re, sys, json, subprocess, shutil, random, signal, time
W, N, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
ONLY = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
SCALE = os.environ.get("SWEEP_SCALE", "0.1")
base = f"/tmp/mw/w{W}"
repo, verif = base + "/repo", base + "/verif"
if not os.path.exists(base):
    os.makedirs(base)
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    os.makedirs(verif)
    for f in ["build.inc", "check", "setup", "harness", "known_findings", "tools"]:
        subprocess.run(["cp", "-a", "/verif/" + f, verif], check=True)
    for f in ["build.inc", "harness/Cargo.toml"]:
        p = f"{verif}/{f}"; s = open(p).read().replace("/repo", repo); open(p, "w").write(s)
    subprocess.run(f"mkdir -p {verif}/out {verif}/evidence", shell=True)
FILES = {
 "dess/src/solver.rs": ["C01","C03","C04","C05","C22","C02","C06","C08","C26","C27"],
 "dess/src/traits_and_macros.rs": ["C19","C21","C14","C15","C24","C09"],
 "dess/src/utilities.rs": ["C25"],
 "dess/src/lib.rs": ["C14","C17"],
 "dess-examples/src/components.rs": ["C21","C12","C27","C09","C19","C11"],
 "dess-examples/src/three_thermal_mass_sys.rs": ["C27","C26","C28","C09","C11","C02"],
 "dess-examples/src/three_thrml_mass_w_bc_sys.rs": ["C27","C26","C12","C28","C11"],
 "dess/dess-proc-macros/src/bare_clone.rs": ["C16","C13"],
 "dess/dess-proc-macros/src/history_methods.rs": ["C18","C20"],
 "dess/dess-proc-macros/src/history_vec.rs": ["C17"],
 "dess/dess-proc-macros/src/pyo3_api.rs": ["C27","C26","C20"],
 "dess/dess-proc-macros/src/solver_attr.rs": ["C19","C02","C06","C13"],
 "dess/dess-proc-macros/src/utilities.rs": ["C20"],
 "dess-examples-pyo3/src/lib.rs": ["C27"],
}
ALL = [f"C{i:02}" for i in range(1, 29)]
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" <= ", " < "), (r" < ", " <= "), (r" >= ", " > "), (r" > ", " >= "),
       (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r"\.min\(", ".max("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r" \+= ", " -= "), (r" \*= ", " += "), (r"= (?=[a-z(0-9][^:]*;)", "= -") , (r"\brtol\b", "atol"), (r"\batol\b", "rtol"), (r"\.bare_clone\(\)", ".clone()"),
       (r"\bm2\b", "m3"), (r"\bm1\b", "m2"), (r"\bh12\b", "h23"), (r"\bk1s?\b", lambda m: m.group(0).replace("1", "2")), (r"\bk3s?\b", lambda m: m.group(0).replace("3", "2")),
       (r"\bsys(\d)\b", lambda m: "sys%d" % (int(m.group(1)) % 5 + 1)), (r"norm_err_rel", "norm_err"), (r"\bany\b", "all"), (r"!", ""), (r"\(\*dt_max\)", "(1e9)"),
       (r'"use_state"', '"save_state"'), (r'"save_state"', '"use_state"'), (r"self\.clone\(\)", "Self::default()"), (r"Some\(([a-z_]+)\)$", "None"), (r"\?\)", ".unwrap())"),
       (r"\btemp\b", "dtemp"), (r"\bdtemp\b", "temp"), (r"save_states", "save"), (r"\bsave\b", "save_states"), (r"delta3\b", "delta2"), (r"delta5\b", "delta4")]
def mutants(path):
    lines = open("/repo/" + path).read().split("\n")
    in_test = False
    for i, l in enumerate(lines):
        if "#[cfg(test)]" in l: break
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("use ") or s.startswith("#!["): continue
        code = l.split("//")[0] if "://" not in l else l
        out = set()
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                r = rep(m) if callable(rep) else m.expand(rep)
                out.add(l[:m.start()] + r + l[m.end():])
        for m in re.finditer(r"(?<![\w.])(\d[\d_]*)(\.\d*)?(e-?\d+)?", code):
            t = m.group(0)
            try: v = float(t.replace("_", ""))
            except ValueError: continue
            isf = "." in t or "e" in t
            for nv in ([v * 1.001 if v else 1e-3, v + 1] if isf else [v + 1]):
                r = repr(nv) if isf else str(int(nv))
                out.add(l[:m.start()] + r + l[m.end():])
        if s.endswith(";") and not s.startswith(("let ", "pub ", "return", "}")):
            out.add("// removed")
        if s.startswith("#[") or re.match(r"#\(.*\)\*$", s): out.add("")
        for o in sorted(out):
            if o != l: yield i, o
def sh(cmd, t, env=None):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, env=env)
    try:
        o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.wait(); return 99, "timeout"
stable = {x.split("::", 1)[1].replace("/", "::") for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
names = {x.split("src/lib.rs::")[1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
work = [(f, i, o) for f in FILES for i, o in mutants(f) if not ONLY or ONLY.search(f)]
random.Random(5).shuffle(work)
LIMIT = int(os.environ.get("SWEEP_LIMIT", "100000"))
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
print(len(work), "mutants", flush=True)
for k, (f, i, o) in enumerate(work[:LIMIT]):
    if k % N != W or (f, i + 1, o.strip()) in done: continue
    src = open("/repo/" + f).read(); lines = src.split("\n"); old = lines[i]; lines[i] = o
    open(f"{repo}/{f}", "w").write("\n".join(lines))
    rec = {"file": f, "line": i + 1, "old": old.strip(), "new": o.strip()}
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("CARGO_TARGET_DIR", None)
    rc, out = sh(f"cd {repo} && cargo test -p dess-examples --lib --offline -- --test-threads 4", 120, env)
    passed = set(re.findall(r"^test (\S+) \.\.\. ok", out, re.M))
    if "could not compile" in out: rec["res"] = "nocompile"
    elif rc == 99: rec["res"] = "tests hang"
    elif not names <= passed: rec["res"] = "tests"
    else:
        rec["res"] = "SURVIVED"
        rec["errs"] = []
        order = FILES[f] + [c for c in ALL if c not in FILES[f]]
        e2 = dict(os.environ, VH_SCALE=SCALE, VERIF_SEED="1", VERIF_TIER="quick")
        for c in order:
            rc, out = sh(f"cd {verif} && ./check {c}", 800, e2)
            if rc == 1 and "VIOLATION" in out:
                rec["res"] = c; rec["msg"] = [l for l in out.split("\n") if l][-2][:200] if len(out.split("\n")) > 2 else ""; break
            if rc != 0:
                rec["errs"].append([c, rc, out[-150:]])
                if "does not build" in out: rec["res"] = "nobuild"; break
                if "ERROR" in out and len(rec["errs"]) > 3: break
    open(f"{repo}/{f}", "w").write(src)
    open(OUT, "a").write(json.dumps(rec) + "\n")
