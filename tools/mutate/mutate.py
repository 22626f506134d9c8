#!/usr/bin/env python3
"""Mutation trial (not a check): small random edits of a scratch copy of /repo,
each judged by a scratch copy of the monitors with short budgets.  Prints the
mutants no check notices; most are equivalent, the others are gaps.

    mutate.py SEED COUNT [path prefix below src]

Works in /tmp/mut; never touches /repo."""
import json, os, random, re, shutil, subprocess, sys, time

W = "/tmp/mut"
seed, count = int(sys.argv[1]), int(sys.argv[2])
prefix = sys.argv[3] if len(sys.argv) > 3 else ""
rng = random.Random(seed)


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def setup():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(f"{W}/repo"):
        sh(["git", "clone", "-q", "/repo", f"{W}/repo"])
        shutil.copy("/repo/Cargo.lock", f"{W}/repo/Cargo.lock")
    sh(["git", "-C", f"{W}/repo", "fetch", "-q"])
    sh(["git", "-C", f"{W}/repo", "reset", "-q", "--hard", sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()])
    os.makedirs(f"{W}/verif", exist_ok=True)
    for d in ("bin", "harness", "mpiharness", "oracle"):
        shutil.rmtree(f"{W}/verif/{d}", ignore_errors=True)
        shutil.copytree(f"/verif/{d}", f"{W}/verif/{d}", ignore=shutil.ignore_patterns("target"))
    for c in ("harness", "mpiharness"):
        p = f"{W}/verif/{c}/Cargo.toml"
        t = open(p).read().replace('path = "/repo"', f'path = "{W}/repo"')
        open(p, "w").write(t)
    p = f"{W}/verif/bin/props.py"
    t = open(p).read().replace("Q, T = 60, 600", "Q, T = 12, 600").replace('("native", 40), ("asan", 80)', '("native", 12)')
    t = t.replace('("native", 40), ("tsan", 60)', '("native", 8)').replace('[("native", Q), ("bare", Q)]', '[("native", Q)]')
    t = t.replace('[("mpi", 120), ("mpibare", 120)]', '[("mpi", 120)]')
    open(p, "w").write(t)


OPS = [
    (r"(?<=[\w\)\]] )\+(?= )", "-"), (r"(?<=[\w\)\]] )-(?= )", "+"), (r"(?<=[\w\)\]] )\*(?= )", "+"), (r"(?<=[\w\)\]] )/(?= )", "*"),
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r"&&", "||"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.rev\(\)", ""), (r"\+= ", "-= "), (r"-= ", "+= "), (r"\*= ", "/= "),
    (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "1"),
    (r"(?<![\w.])2(?![\w.])", "3"), (r"(?<![\w.])4(?![\w.])", "3"), (r"\b(\d)\.(?!\.)", lambda m: str(int(m.group(1)) + 1) + "."),
    (r"x_pencil", "y_pencil"), (r"y_pencil", "x_pencil"), (r"\.re\b", ".im"), (r"\.im\b", ".re"), (r"\.low\b", ".dia"), (r"\.dia\b", ".low"),
    (r"len_phys", "len_spec"), (r"len_spec", "len_orth"), (r"len_orth", "len_spec"), (r"base0\b", "base1"), (r"base1\b", "base0"), (r"base2\b", "base1"),
    (r"_par\b", ""), (r"shape_spectral\b", "shape_physical"), (r"shape_physical\b", "shape_spectral"), (r"::zero\(\)", "::one()"), (r"::one\(\)", "::zero()"),
    (r"-A::one\(\)", "A::one()"), (r"saturating_sub\((\d+)\)", lambda m: f"saturating_sub({int(m.group(1)) + 1})"), (r"\bnprocs\b", "nrank"), (r"\bnrank\b", "nprocs"),
    (r"BaseKind::\w+", "BaseKind::ChebNeumann"), (r"TransformKind::\w+", "TransformKind::C2c"), (r"\.st\b", ".en"), (r"\.sz\b", ".st"), (r"_spec\b", "_phys"), (r"_phys\b", "_spec"),
]


def candidates():
    out = []
    for root, _, files in os.walk(f"{W}/repo/src/{prefix}" if os.path.isdir(f"{W}/repo/src/{prefix}") else f"{W}/repo/src"):
        for f in files:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, f"{W}/repo")
            if not rel.startswith("src/" + prefix):
                continue
            lines = open(p).read().split("\n")
            for i, l in enumerate(lines):
                if "#[cfg(test)]" in l:
                    break
                s = l.strip()
                if not s or s.startswith(("//", "use ", "pub use", "#", "///", "*", "impl", "where", "pub trait", "pub struct")) or '"' in s:
                    continue
                for k, (pat, _) in enumerate(OPS):
                    for m in re.finditer(pat, l.split("//")[0]):
                        out.append((rel, i, k, m.start()))
                if re.match(r"^(assert!|assert_eq!|check_array_axis|\*?[\w\[\]\.]+ [\*\+-]?= |self\.\w+\(|\w+\.\w+\().*;$", s) and "let " not in s:
                    out.append((rel, i, -1, 0))
    return out


def order(rel):
    if "space_mpi" in rel:
        return ["C16", "C17", "C18", "C19", "C20", "C23"]
    if "space" in rel:
        return ["C09", "C22", "C07", "C12", "C14", "C02", "C01", "C08", "C15"]
    if "fourier" in rel:
        return ["C05", "C06", "C01", "C12", "C22", "C14", "C10", "C02", "C09"]
    if "utils" in rel:
        return ["C21", "C14"]
    if "internal_macros" in rel or rel.endswith("traits.rs"):
        return ["C08", "C07", "C14", "C22", "C10", "C15"]
    return ["C04", "C03", "C06", "C05", "C01", "C10", "C14", "C22", "C02", "C12"]


def main():
    setup()
    c = candidates()
    # spread over lines, not over operators
    by = {}
    for x in c:
        by.setdefault(x[:2], []).append(x)
    keys = sorted(by)
    rng.shuffle(keys)
    done = 0
    for key in keys:
        if done >= count:
            break
        rel, i, k, at = rng.choice(by[key])
        p = f"{W}/repo/{rel}"
        text = open(p).read()
        lines = text.split("\n")
        old = lines[i]
        if k < 0:
            lines[i] = re.match(r"\s*", old).group(0) + "// gone"
        else:
            pat, rep = OPS[k]
            m = re.compile(pat).search(old, at)
            if not m:
                continue
            lines[i] = old[:m.start()] + (rep(m) if callable(rep) else rep) + old[m.end():]
        if lines[i] == old:
            continue
        open(p, "w").write("\n".join(lines))
        try:
            env = dict(os.environ, FSMON_SHARDS="8")
            res, t = "SURVIVED", time.time()
            for prop in order(rel):
                r = sh(["timeout", "600", "python3", f"{W}/verif/bin/check", prop, "quick"], env=env)
                if r.returncode == 1:
                    res = "killed by " + prop
                    break
                if r.returncode != 0:
                    res = "does not build" if "build of stage" in r.stdout else f"NO ANSWER {prop}: " + r.stdout[-200:].replace("\n", " | ")
                    break
            print(f"{res} ({time.time() - t:.0f} s) {rel}:{i + 1}: {old.strip()}  =>  {lines[i].strip()}", flush=True)
            if res != "does not build":
                done += 1
        finally:
            open(p, "w").write(text)


main()
