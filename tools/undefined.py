"""The bounded stand-in for what the contracts on raw pointers assume: the real code, run under Miri.
Only an access outside the memory a pointer was made for, or an invalid value, counts; a disagreement with
the (experimental) aliasing rules inside that memory does not."""
import json, os, re, subprocess, time
import harnesses
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = f"{HERE}/build/miri"
RULE = "every operation with unsafe code, at capacities 1, 2, 3, 4, 8, 16 and CacheString, on 32 texts with three earlier buffer contents, indices up to one past the end, and arguments and ranges that answer differently each time"

def env():
    e = {k: v for k, v in os.environ.items() if k not in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS")}
    e.update(CARGO_TARGET_DIR=TARGET, XDG_CACHE_HOME=f"{HERE}/build/cache", MIRIFLAGS="-Zmiri-disable-isolation", CARGO_TERM_COLOR="never")
    return e

def cmd(*a):
    return ["cargo", "+nightly", "miri", "run", "--offline", "--release", "--manifest-path", f"{HERE}/miri/Cargo.toml", "--", *map(str, a)]

def outside(text):
    """whether the report says that memory outside what the pointer may reach was accessed, or a value is invalid"""
    m = re.search(r"^error: Undefined Behavior: (.*)$", text, re.M)
    if not m:
        return None
    msg = m.group(1)
    if "borrow stack" not in msg and "Stacked Borrows" not in text:
        return msg
    a = re.search(r"access at alloc\d+\[(0x[0-9a-f]+)(?:\.\.(0x[0-9a-f]+))?\]", text)
    t = re.search(r"was created by a \w+ retag at offsets \[(0x[0-9a-f]+)(?:\.\.(0x[0-9a-f]+))?\]", text)
    if a and t:
        h = lambda x, d: int(x, 16) if x else d
        a0, t0 = h(a.group(1), 0), h(t.group(1), 0)
        a1, t1 = h(a.group(2), a0 + 1), h(t.group(2), t0 + 1)
        if a0 < t0 or a1 > t1:
            return f"memory outside the {t1 - t0} bytes the pointer was made for is accessed: bytes {a0 - t0} to {a1 - t0} ({msg[:120]})"
    return None

def run(ms, thin, shards=8, budget=400):
    t0 = time.time()
    harnesses.fresh(TARGET)
    s = {"tool": "Miri", "cases": 0, "shards_run_to_the_end": 0, "rule": RULE, "fails": [], "problem": None}
    try:
        p = subprocess.run(cmd("--shard", 0, "--of", 1 << 40), env=env(), capture_output=True, text=True, timeout=budget)
    except subprocess.TimeoutExpired:
        s["problem"] = "Miri could not be prepared in time"
        return s
    if p.returncode != 0 or '"cases"' not in p.stdout:
        s["problem"] = "Miri does not run here: " + " ".join(re.findall(r"^error.*", p.stderr, re.M)[:3])[:400]
        return s
    ps = [subprocess.Popen(cmd("--shard", k, "--of", shards, "--thin", thin, "--ms", ms), env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for k in range(shards)]
    end = time.time() + ms / 1000 * 2 + 60
    for k, p in enumerate(ps):
        try:
            out, err = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            continue
        m = re.search(r'^\{"cases": (\d+), .*"complete": (\w+)\}', out, re.M)
        if m:
            s["cases"] += int(m.group(1))
            s["shards_run_to_the_end"] += m.group(2) == "true"
            continue
        last = re.findall(r"^AT (\d+)", out, re.M)
        what = outside(err) or next(iter(re.findall(r"^INVALID (.*)", out, re.M)), None)
        if last and what and not s["fails"]:
            again = cmd("--shard", k, "--of", shards, "--thin", thin, "--from", last[-1], "--ms", 120000)
            try:
                p2 = subprocess.run(again, env=env(), capture_output=True, text=True, timeout=150)
            except subprocess.TimeoutExpired:
                continue
            what = outside(p2.stderr) or next(iter(re.findall(r"^INVALID (.*)", p2.stdout, re.M)), None)
            case = re.findall(r"^CASE (\d+) (.*)", p2.stdout, re.M)
            if what and case:
                where = re.search(r"-->\s*(\S*src/\S+)", p2.stderr[p2.stderr.find("Undefined Behavior"):])
                e = env()
                s["fails"].append({"case": case[-1][0], "input": case[-1][1], "got": f"undefined behaviour: {what}" + (f" at {where.group(1)}" if where else ""), "want": "every access inside the buffer and every text valid",
                                   "replay": " ".join(f"{x}={e[x]}" for x in ("CARGO_TARGET_DIR", "XDG_CACHE_HOME", "MIRIFLAGS")) + " " + " ".join(cmd("--only", case[-1][0]))})
    s["wall_s"] = round(time.time() - t0, 1)
    return s

if __name__ == "__main__":
    import sys
    print(json.dumps(run(int(sys.argv[1]), int(sys.argv[2])), indent=1))
