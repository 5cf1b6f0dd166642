#!/usr/bin/env python3
"""Builds everything a check needs from /repo's current tree:
   engine  -> .work/engine/release/symex
   harness -> .work/harness.ll (whole-program LLVM IR of harness + json_typegen + dependencies + std)
   replay  -> .work/native/release/replay (the same harnesses, compiled normally)
"""
import hashlib, os, re, subprocess, sys, glob, shutil, fcntl, time, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.path.join(V, ".work")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", HOME=os.environ.get("HOME", "/root"))
for k in list(ENV):
    if k.startswith("CARGO_PROFILE_") or k in ("RUSTFLAGS", "CARGO_INCREMENTAL", "CARGO_TARGET_DIR"):
        del ENV[k]

def sh(cmd, env=None, cwd=None, what=None, quiet=False):
    r = subprocess.run(cmd, env=env or ENV, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:] + "\nbuild step failed: %s\n" % (what or " ".join(cmd)[:300]))
        sys.exit(3)
    return r.stdout

def sysroot():
    return sh(["rustc", "--print", "sysroot"]).strip()

def tool(n):
    return os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin", n)

def engine():
    sh(["cargo", "build", "--release", "--offline", "-q"], env=dict(ENV, CARGO_TARGET_DIR=W + "/engine"), cwd=V + "/engine", what="engine")
    return W + "/engine/release/symex"

def stdbc():
    """bitcode of the standard library, taken from the sections rustc embeds in its rlibs"""
    key = hashlib.sha256(sh(["rustc", "-vV"]).encode()).hexdigest()[:16]
    d = W + "/std-" + key
    if os.path.exists(d + "/ok"):
        return sorted(glob.glob(d + "/*.bc"))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    lib = os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/lib")
    ar, oc = tool("llvm-ar"), tool("llvm-objcopy")
    for c in ["core", "alloc", "std", "hashbrown", "std_detect", "rustc_demangle", "memchr", "cfg_if", "panic_abort", "libc",
              "gimli", "addr2line", "object", "miniz_oxide"]:
        for a in glob.glob(lib + "/lib" + c + "-*.rlib"):
            t = d + "/x"
            os.makedirs(t, exist_ok=True)
            sh([ar, "x", a], cwd=t)
            for o in glob.glob(t + "/*.o"):
                n = os.path.basename(o)
                subprocess.run([oc, "--dump-section", ".llvmbc=" + d + "/" + n + ".bc", o, "/dev/null"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            shutil.rmtree(t)
    for f in glob.glob(d + "/*.bc"):
        if os.path.getsize(f) == 0:
            os.remove(f)
    open(d + "/ok", "w").write("")
    return sorted(glob.glob(d + "/*.bc"))

def tree_hash():
    h = hashlib.sha256()
    for base in ["/repo/json_typegen_shared", "/repo/json_typegen_cli/src", "/repo/json_typegen_wasm/src", "/repo/json_typegen/src", V + "/harness"]:
        for dp, dn, fn in sorted(os.walk(base)):
            dn[:] = sorted(x for x in dn if x not in ("target", ".git", "node_modules"))
            for f in sorted(fn):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(dp, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()

PROGS = {"cli": "json_typegen_cli", "wasm": "json_typegen_wasm", "mac": "json_typegen"}
def prog_sources():
    """the programs around the library as libraries the harnesses can call (see harness/progs)"""
    for n, c in PROGS.items():
        src, dst = "/repo/%s/src" % c, W + "/gen/" + n
        for dp, _, fn in os.walk(src):
            d = os.path.join(dst, os.path.relpath(dp, src))
            os.makedirs(d, exist_ok=True)
            for f in fn:
                if not f.endswith(".rs"):
                    continue
                t = open(os.path.join(dp, f)).read()
                if n == "cli":
                    t = re.sub(r"(?m)^fn main\(", "pub fn main(", t)
                # attributes only their own kinds of crate can have
                t = re.sub(r"(?m)^\s*#\[(wasm_bindgen|proc_macro|global_allocator)[^\]]*\]", "", t)
                p = os.path.join(d, f)
                if not os.path.exists(p) or open(p).read() != t:
                    open(p, "w").write(t)

STRIP = re.compile(
    r"4core4hash3sip.*5write|9panicking9panic_fmt|9panicking18panic_nounwind_fmt|rust_begin_unwind|5alloc18handle_alloc_error|"
    r"7raw_vec12handle_error|8set_hook")

def features(entries):
    """one kind of entry point at a time"""
    e = entries or []
    for k, p in [("cli", "h_cli"), ("wasm", "h_wasm"), ("mac", "h_proc")]:
        if any(x.startswith(p) for x in e):
            return [k]
    if any(x.startswith("h_file_progress") for x in e):
        return ["local", "progress"]
    return ["local", "remote"] if any(x.startswith("h_remote") for x in e) else ["local"]

def harness_ll(entries=None):
    """whole-program IR of the harness entry points `entries` (all when None)"""
    tag = "-".join(entries) if entries else "all"
    key = tree_hash()
    fs = features(entries)
    out = W + "/%s.ll" % tag
    stamp = W + "/%s.key" % tag
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out, 0.0
    t0 = time.time()
    td = W + "/harness"
    T = "x86_64-unknown-linux-gnu"
    shutil.rmtree(td + "/" + T + "/debug/deps", ignore_errors=True)
    env = dict(ENV, CARGO_TARGET_DIR=td, RUSTC_BOOTSTRAP="1",
               RUSTFLAGS="--emit=llvm-bc,link,metadata -Cno-prepopulate-passes -Zinline-mir=no")
    sh(["cargo", "build", "--offline", "-q", "--lib", "--target", T, "--features", ",".join(fs)], env=env, cwd=V + "/harness", what="harness (bitcode)")
    bcs = [b for b in sorted(glob.glob(td + "/" + T + "/debug/deps/*.bc")) if "build_script" not in b]
    a = W + "/all.bc"
    sh([tool("llvm-link"), "-o", a] + bcs + stdbc(), what="llvm-link")
    # functions replaced by engine models: turn the definitions into declarations
    names = sh([tool("llvm-dis"), a, "-o", W + "/all.ll"])
    hs = []
    src = open(W + "/all.ll", "r", errors="replace")
    dst = open(W + "/stripped.ll", "w")
    skipping = False
    for line in src:
        if skipping:
            if line.startswith("}"):
                skipping = False
            continue
        if line.startswith("define "):
            m = re.search(r'@("?)([^"(]+)\1\(', line)
            n = m.group(2)
            if n.startswith("h_") and (entries is None or n in entries):
                hs.append(n)
            if n == "exit":
                hs.append(n)
            if not n.startswith("h_") and STRIP.search(n):
                dst.write(to_decl(line))
                skipping = True
                continue
        dst.write(line)
    src.close()
    dst.close()
    os.remove(W + "/all.ll")
    sh([tool("opt"), "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(hs), "-strip-debug",
        W + "/stripped.ll", "-o", W + "/b.bc"], what="globaldce")
    sh([tool("opt"), "-passes=default<O2>", "-vectorize-loops=false", "-vectorize-slp=false", W + "/b.bc", "-o", W + "/c.bc"], what="opt")
    sh([tool("llvm-dis"), W + "/c.bc", "-o", out + ".tmp"], what="llvm-dis")
    os.rename(out + ".tmp", out)
    missing = set(entries or []) - set(hs)
    if missing:
        sys.stderr.write("no such harness: %s\n" % missing)
        sys.exit(3)
    for f in ["all.bc", "stripped.ll", "b.bc", "c.bc"]:
        os.remove(os.path.join(W, f))
    open(stamp, "w").write(key)
    return out, time.time() - t0

def to_decl(line):
    l = line.rstrip("\n").rstrip("{").rstrip()
    l = re.sub(r"^define (?:(?:internal|private|linkonce_odr|weak_odr|linkonce|weak|hidden|protected|dso_local|external) )*", "declare ", l)
    # cut after the parameter list, keep attribute groups
    i = l.index("@")
    d = 0
    j = l.index("(", i)
    for k in range(j, len(l)):
        if l[k] == "(":
            d += 1
        elif l[k] == ")":
            d -= 1
            if d == 0:
                break
    tail = re.findall(r"#\d+", l[k + 1:])
    head = re.sub(r" %[-A-Za-z0-9_.$]+(?=[,)])", "", l[:k + 1])
    return head + " " + " ".join(tail[:1]) + "\n"

def native(entries=None):
    sh(["cargo", "build", "--release", "--offline", "-q", "--features", ",".join(["native"] + features(entries)), "--bin", "replay"],
       env=dict(ENV, CARGO_TARGET_DIR=W + "/native"), cwd=V + "/harness", what="harness (native)")
    return W + "/native/release/replay"

def build_all(entries=None):
    """the three independent builds run side by side"""
    os.makedirs(W, exist_ok=True)
    res, err = {}, []
    def run(k, f):
        try:
            res[k] = f()
        except BaseException as e:
            err.append(e)
    with open(W + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        prog_sources()
        ts = [threading.Thread(target=run, args=a) for a in
              [("ll", lambda: harness_ll(entries)[0]), ("e", engine), ("r", lambda: native(entries))]]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    if err:
        sys.exit(3)
    return res["e"], res["ll"], res["r"]

if __name__ == "__main__":
    t0 = time.time()
    print(build_all(sys.argv[1:] or None), "%.1fs" % (time.time() - t0))
