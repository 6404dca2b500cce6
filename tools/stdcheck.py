"""The assumed contracts on the standard library, executed against the installed one (stdcheck/main.rs)."""
import hashlib, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def run(wd):
    src = f"{HERE}/stdcheck/main.rs"
    env = dict(os.environ)
    v = subprocess.run(["rustc", "-vV"], capture_output=True, text=True, env=env, cwd=wd).stdout
    exe = f"{HERE}/build/stdcheck-{hashlib.sha256((v + open(src).read()).encode()).hexdigest()[:16]}"
    try:
        if not os.path.exists(exe):
            os.makedirs(f"{HERE}/build", exist_ok=True)
            p = subprocess.run(["rustc", "--edition", "2021", "-O", "-A", "warnings", src, "-o", f"{wd}/stdcheck"], capture_output=True, text=True, timeout=200, env=env)
            if p.returncode:
                return {"ran": False, "why": p.stderr[-300:]}
            subprocess.run(["cp", f"{wd}/stdcheck", exe + f".{os.getpid()}"], check=True)
            os.replace(exe + f".{os.getpid()}", exe)
        p = subprocess.run([exe], capture_output=True, text=True, timeout=200)
    except Exception as e:
        return {"ran": False, "why": f"{type(e).__name__}: {e}"[:300]}
    lines = [l.split("\t") for l in p.stdout.splitlines()]
    wrong = [l[0] for l in lines if l[0].startswith("WRONG")]
    if p.returncode or not lines or lines[-1][0] != "TOTAL":
        return {"ran": True, "wrong": wrong or [f"status {p.returncode} {p.stderr[-200:]}"]}
    return {"ran": True, "wrong": [], "evaluations": int(lines[-1][1]), "contracts": [f"{a}: {b} ({n})" for a, b, n in lines[:-1]]}
