#!/usr/bin/env python3
"""Builds and runs one check against the current tree of /repo.

usage: run.py ID [quick|thorough]
Everything is built in a scratch directory that is removed afterwards; /repo is only read.
The harness of a check is placed, by a build overlay, at /repo/internal/zzverif/<id>/ so that it
is compiled as a package of the module under test.
"""
import json, os, shutil, subprocess, sys, tempfile, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CFG = json.load(open(os.path.join(VERIF, "checks.json")))


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="1",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:" + e.get("PATH", "")
    return e


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        print("BUILD-ERROR:", " ".join(cmd), file=sys.stderr)
        print(r.stdout[-8000:], file=sys.stderr)
        raise SystemExit(2)
    return r.stdout


def build(cid, scratch, cfg=None, out=None):
    cfg = cfg or CFG[cid]
    env = goenv()
    # go.mod of the build: the one of /repo plus the library and patched third-party modules
    mod = open(os.path.join(REPO, "go.mod")).read()
    mod += "\nrequire verif.local/vlib v0.0.0\nreplace verif.local/vlib => %s/lib\n" % VERIF
    overlay = {}
    src = os.path.join(VERIF, "checks", cfg.get("dir", cid.lower()))
    dst = os.path.join(REPO, "internal", "zzverif", cid.lower())
    for f in sorted(os.listdir(src)):
        if f.endswith(".go"):
            overlay[os.path.join(dst, f)] = os.path.join(src, f)
    instr = cfg.get("instrument", [])
    patched = cfg.get("patch_modules", [])
    if instr or patched:
        tool = os.path.join(scratch, "instr")
        sh(["go", "build", "-o", tool, "./cmd/instr"], cwd=os.path.join(VERIF, "lib"), env=env)
        for pkg in instr:
            pdir = os.path.normpath(os.path.join(REPO, pkg["dir"]))
            odir = os.path.join(scratch, "i", pkg["dir"].replace("/", "_").replace(".", "_"))
            os.makedirs(odir)
            args = [tool, "-mode", pkg.get("mode", "sched"), "-out", odir]
            if pkg.get("files"):
                args += ["-files", ",".join(pkg["files"])]
            sh(args + [pdir], env=env)
            for f in sorted(os.listdir(odir)):
                overlay[os.path.join(pdir, f)] = os.path.join(odir, f)
        for pm in patched:
            info = json.loads(sh(["go", "list", "-m", "-json", pm["module"]], cwd=REPO, env=env))
            mdir = os.path.join(scratch, "m", os.path.basename(pm["module"]))
            shutil.copytree(info["Dir"], mdir, ignore=shutil.ignore_patterns("*_test.go", "testdata", "example*"))
            for root, ds, fs in os.walk(mdir):
                os.chmod(root, 0o755)
                for f in fs:
                    os.chmod(os.path.join(root, f), 0o644)
            odir = os.path.join(scratch, "mo", os.path.basename(pm["module"]))
            os.makedirs(odir)
            for f, src_ in pm.get("stubs", {}).items():
                shutil.copy(os.path.join(VERIF, src_), os.path.join(mdir, f))
            if pm.get("mode"):
                sh([tool, "-mode", pm["mode"], "-out", odir, mdir], env=env)
            for f in os.listdir(odir):
                shutil.copy(os.path.join(odir, f), os.path.join(mdir, f))
            gmf = os.path.join(mdir, "go.mod")
            gm = open(gmf).read() if os.path.exists(gmf) else "module %s\n\ngo 1.21\n" % pm["module"]
            gm += "\nrequire verif.local/vlib v0.0.0\n"
            open(gmf, "w").write(gm)
            mod += "replace %s => %s\n" % (pm["module"], mdir)
    open(os.path.join(scratch, "go.mod"), "w").write(mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(scratch, "go.sum"))
    ov = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": overlay}, open(ov, "w"))
    out = out or os.path.join(scratch, cid.lower() + ".bin")
    cmd = ["go", "build", "-modfile", os.path.join(scratch, "go.mod"), "-overlay", ov, "-o", out]
    if cfg.get("race"):
        cmd.append("-race")
    if os.environ.get("VERIF_COVER"):
        # to see what the checks do not reach (with GOCOVERDIR, and VERIF_REPO a scratch copy)
        for to, frm in overlay.items():
            os.makedirs(os.path.dirname(to), exist_ok=True)
            shutil.copy(frm, to)
        i = cmd.index("-overlay")
        cmd[i:i + 2] = ["-cover", "-coverpkg=github.com/effective-security/xdb/..."]
    if cfg.get("tags"):
        cmd += ["-tags", cfg["tags"]]
    if cfg.get("ldflags"):
        cmd += ["-ldflags", cfg["ldflags"]]
    cmd.append("./internal/zzverif/" + cid.lower())
    sh(cmd, cwd=REPO, env=env)
    # programs of the module that the harness runs
    for name, pkg in cfg.get("programs", {}).items():
        sh(["go", "build"] + (["-cover", "-coverpkg=github.com/effective-security/xdb/..."] if os.environ.get("VERIF_COVER") else []) +
           ["-modfile", os.path.join(scratch, "go.mod"), "-o", os.path.join(scratch, "bin", name), pkg], cwd=REPO, env=env)
    return out, ov


def main():
    cid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    cfg = CFG[cid]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % cid.lower())
    code = 2
    try:
        binp, ov = build(cid, scratch)
        env = goenv()
        env["VERIF_TIER"] = tier
        env.setdefault("VERIF_SEED", "1")
        env["VERIF_SCRATCH"] = scratch
        env["VERIF_REPO"] = REPO
        env["VERIF_HOME"] = VERIF
        env.setdefault("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
        env.setdefault("VERIF_KNOWN", os.path.join(VERIF, "known_findings.json"))
        env.update(cfg.get("env", {}))
        if cfg.get("race"):
            env["GORACE"] = "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3 log_path=%s" % os.path.join(scratch, "race")
        p = subprocess.Popen([binp] + cfg.get("args", []), cwd=scratch, env=env)
        code = p.wait()
        if code not in (0, 1):
            print("HARNESS-ERROR: %s exited with %d" % (cid, code), file=sys.stderr)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    raise SystemExit(code)


if __name__ == "__main__":
    main()
