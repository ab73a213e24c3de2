"""Builds the symbolic executor binary (and the native replay binary) from /repo's working tree."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tomllib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FORUST_REPO", "/repo")
TOOLCHAIN = "stable"
PYTHON = "/opt/pyenv/bin/python"


def z3lib():
    for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so",
              "/usr/lib/x86_64-linux-gnu/libz3.so"):
        if os.path.exists(p):
            return p
    raise SystemExit(2)


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def toml_value(v):
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{k} = {toml_value(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(toml_value(x) for x in v) + "]"
    if isinstance(v, bool):
        return "true" if v else "false"
    return str(v)


def functions(path):
    """(first line, last line, name) of the top level functions of a harness module."""
    out, start, name = [], None, None
    for i, l in enumerate(open(path), 1):
        m = re.match(r"(?:pub )?fn (\w+)", l)
        if m:
            start, name = i, m.group(1)
        elif l.startswith("}") and start:
            out.append((start, i, name))
            start = None
    return out


def harness_root(dst, unfit):
    """The harness modules, without the harnesses in `unfit` (module -> set of functions, or None for all of it)."""
    text = open(os.path.join(HERE, "harness", "mod.rs")).read()
    mods = re.findall(r"^    (c\d+): (.*);$", text, re.M)
    lines, decl = [], ['#[path = "%s/util.rs"]\npub mod util;\n' % os.path.join(HERE, "harness")]
    for m, fns in mods:
        src = os.path.join(HERE, "harness", m + ".rs")
        gone = unfit.get(m, set())
        if gone is None:
            continue
        if gone:
            ls = open(src).read().split("\n")
            for s, e, n in functions(src):
                if n in gone:
                    while s > 1 and re.match(r"///|#\[", ls[s - 2]):
                        s -= 1
                    ls[s - 1:e] = [""] * (e - s + 1)
            src = os.path.join(dst, "..", "cut_" + m + ".rs")
            write_if_changed(src, "\n".join(ls))
        decl.append('#[path = "%s"]\npub mod %s;\n' % (os.path.abspath(src), m))
        lines.append("    %s: %s;\n" % (m, " ".join(f for f in fns.split() if f not in gone)))
    a = text.index("h! {")
    return (text[:a].replace("$(pub mod $m;)*", "").replace("pub mod util;\n", "".join(decl))
            + "h! {\n" + "".join(lines) + "}\n")


def find_unfit(stderr, unfit):
    """Adds the harness functions rustc complains about; False if something else is wrong."""
    errors = "\n\n".join(b for b in re.split(r"\n\n(?=\S)", stderr) if re.match(r"\s*error", b))
    locs = set(re.findall(r"^ *--> .*?/(?:harness/|cut_)(c\d+|util)\.rs:(\d+):", errors, re.M))
    new = False
    for m, line in locs:
        if m == "util" or unfit.get(m, set()) is None:
            return False
        names = [n for s, e, n in functions(os.path.join(HERE, "harness", m + ".rs")) if s <= int(line) <= e]
        if names:
            new |= names[0] not in unfit.setdefault(m, set())
            unfit[m].add(names[0])
        else:
            unfit[m] = None
            new = True
    return new


def generate(out, native, py=False, unfit={}):
    """Crate = the repository's sources verbatim, with the harness modules added to its root."""
    src = os.path.join(REPO, "src")
    dst = os.path.join(out, "src")
    wanted = set()
    for root, _, files in os.walk(src):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), src)
            text = open(os.path.join(root, f)).read()
            if rel == "lib.rs":
                if py:
                    # The Python bindings verbatim, as a module: `forust_ml` is this crate.
                    text += ("\nextern crate self as forust_ml;\nmod py_forust;\n#[path = %s]\nmod verif_pyapi;\n"
                             % json.dumps(os.path.join(HERE, "pyapi.rs")))
                else:
                    text += ("\npub mod verif_harness;\n"
                             "pub fn main() { symrt::main(verif_harness::HARNESSES) }\n")
                    write_if_changed(os.path.join(dst, "verif_harness.rs"), harness_root(dst, unfit))
                    wanted.add("verif_harness.rs")
                # The linker wrapper is part of the build: a change of it relinks.
                h = hashlib.sha256(open(os.path.join(HERE, "instrument.py"), "rb").read()
                                   + open(os.path.join(HERE, "link.py"), "rb").read()).hexdigest()
                text += "// " + h + "\n"
                rel = "lib.rs" if py else "main.rs"
            write_if_changed(os.path.join(dst, rel), text)
            wanted.add(rel)
    if py:
        for root, _, files in os.walk(os.path.join(REPO, "py-forust", "src")):
            for f in files:
                rel = os.path.relpath(os.path.join(root, f), os.path.join(REPO, "py-forust", "src"))
                rel = "py_forust.rs" if rel == "lib.rs" else os.path.join("py_forust", rel)
                write_if_changed(os.path.join(dst, rel), open(os.path.join(root, f)).read())
                wanted.add(rel)
    for root, _, files in os.walk(dst):
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, dst) not in wanted:
                os.remove(p)
    man = tomllib.load(open(os.path.join(REPO, "Cargo.toml"), "rb"))
    deps = dict(man["dependencies"])
    if py:
        pm = tomllib.load(open(os.path.join(REPO, "py-forust", "Cargo.toml"), "rb"))
        deps.update({k: v for k, v in pm["dependencies"].items() if k not in deps and k != "forust-ml"})
    deps["symrt"] = {"path": os.path.join(HERE, "symrt")}
    if native:
        deps["symrt"]["features"] = ["native"]
    name = "replay" if native else "symx"
    t = f'[package]\nname = "{name}"\nversion = {json.dumps(man["package"]["version"])}\nedition = {json.dumps(man["package"]["edition"])}\n\n'
    if py:
        t += '[lib]\ncrate-type = ["cdylib"]\n\n'
    t += "[workspace]\n\n[dependencies]\n"
    for k, v in deps.items():
        t += f"{k} = {toml_value(v)}\n"
    t += "\n[patch.crates-io]\n"
    t += f'rand = {{ path = {json.dumps(os.path.join(HERE, "shims/rand"))} }}\n'
    if py and not native:
        t += f'pyo3 = {{ path = {json.dumps(patched_pyo3(out))} }}\n'
    t += "\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\n"
    t += "[profile.dev.package.\"*\"]\nopt-level = 2\n[profile.dev.build-override]\nopt-level = 0\n"
    if not native:
        t += "[profile.dev.package.symx]\nopt-level = 0\ncodegen-units = 1\n"
    write_if_changed(os.path.join(out, "Cargo.toml"), t)
    lock = os.path.join(HERE, ("py" if py else "") + ("replay" if native else "symx") + ".lock")
    if os.path.exists(lock) and not os.path.exists(os.path.join(out, "Cargo.lock")):
        shutil.copy(lock, os.path.join(out, "Cargo.lock"))


def patched_pyo3(out):
    """pyo3 with its two conversions between f32 and f64 redirected like those of the instrumented crate."""
    dst = os.path.join(out, "pyo3")
    cargo = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    src = sorted(glob.glob(os.path.join(cargo, "registry", "src", "*", "pyo3-0.20.*")))
    if not src:
        raise SystemExit(2)
    if not os.path.exists(dst):
        shutil.copytree(src[-1], dst)
        p = os.path.join(dst, "src", "types", "floatob.rs")
        t = open(p).read()
        n = t.count("f64::from(*self)") + t.count("f64::from(self)") + t.count("obj.extract::<f64>()? as f32")
        if n != 3:
            shutil.rmtree(dst)
            sys.stderr.write("pyo3 is not as expected\n")
            raise SystemExit(2)
        t = t.replace("f64::from(*self)", "unsafe { sym_fpext(*self) }").replace("f64::from(self)", "unsafe { sym_fpext(self) }")
        t = t.replace("obj.extract::<f64>()? as f32", "unsafe { sym_fptrunc(obj.extract::<f64>()?) }")
        t += '\nextern "C-unwind" {\n    fn sym_fpext(a: f32) -> f64;\n    fn sym_fptrunc(a: f64) -> f32;\n}\n'
        open(p, "w").write(t)
    return dst


def build(work, native=False, py=False, unfit=None):
    """`unfit` receives the harnesses that could not be compiled against this tree."""
    unfit = {} if unfit is None else unfit
    out = os.path.join(work, ("py" if py else "") + ("replay" if native else "symx"))
    generate(out, native, py, unfit)
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    env["PYO3_PYTHON"] = PYTHON
    env["CARGO_TARGET_DIR"] = os.path.join(out, "target")
    if native:
        cmd = ["cargo", "build", "--offline", "-q"]
    else:
        sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env, capture_output=True, text=True,
                                 check=True).stdout.strip()
        env["SYM_LLC"] = os.path.join(sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/bin/llc")
        env["SYM_Z3LIB"] = z3lib()
        env["SYM_LINKLOG"] = os.path.join(out, "link.json")
        cmd = ["cargo", "rustc", "--offline", "-q"] + (["--lib"] if py else ["--bin", "symx"]) + [
            "--", "--emit=llvm-ir,link",
            "-C", "codegen-units=1", "-C", "linker=" + os.path.join(HERE, "link.py"), "-C", "linker-flavor=gcc",
            "-A", "warnings"]
    r = subprocess.run(cmd, cwd=out, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        if not py and find_unfit(r.stderr, unfit):
            sys.stderr.write(r.stderr[-3000:] + "\nleft out: %s\n" % unfit)
            return build(work, native, py, unfit)
        sys.stderr.write(r.stdout + r.stderr)
        raise SystemExit(2)
    if not py:
        return os.path.join(out, "target", "debug", "replay" if native else "symx")
    # The package as it is installed: the repository's Python files with the extension module beside them.
    pkg = os.path.join(out, "site")
    if os.path.exists(pkg):
        shutil.rmtree(pkg)
    shutil.copytree(os.path.join(REPO, "py-forust", "forust"), os.path.join(pkg, "forust"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    so = os.path.join(out, "target", "debug", "libreplay.so" if native else "libsymx.so")
    os.link(so, os.path.join(pkg, "forust", "forust.so"))
    os.symlink(os.path.join("forust", "forust.so"), os.path.join(pkg, "symapi.so"))
    pre = os.path.join(out, "fixed_random.so")
    subprocess.run(["cc", "-shared", "-fPIC", "-O1", "-o", pre, os.path.join(HERE, "fixed_random.c")], check=True)
    return out


def py_command(out):
    """Command and environment of a Python interpreter with the package built into `out`."""
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONPATH=os.path.join(out, "site"), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               LD_PRELOAD=os.path.join(out, "fixed_random.so"), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    return [PYTHON, os.path.join(HERE, "pyharness", "driver.py")], env


if __name__ == "__main__":
    print(build(sys.argv[1], native="native" in sys.argv, py="py" in sys.argv))
