"""Plant a bug: seed(id, property, edits, sources, demo, what, needs, ...) writes seeded/<id>/ and tries it on /repo.
edits: [(file, old, new)]; demo: C++ text with main() returning 0 when all is well, compiled against the stand-ins for the libraries."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = '''#!/bin/bash
# Compile the demonstration with the repository's sources (stand-ins for the libraries are in stubs.tgz) and run it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
tar xzf "$D/stubs.tgz" -C "$T" || exit 9
mkdir -p "$T/gen" "$T/run"
%(protos)s
FL="-std=%(std)s -O1 -g -w -fno-access-control %(flags)s -I$T/shims/std -I$T/shims -I$T/gen -I$R -I$T/lib -DHARNESS_ENTRY=%(entry)s%(thr)s"
i=0; pids=
for f in "$D/demo.cpp" "$T/lib/native.cpp" %(srcs)s; do clang++ $FL %(san)s -c "$f" -o "$T/o$i.o" & pids="$pids $!"; i=$((i+1)); done
f=0; for p in $pids; do wait $p || f=1; done; [ $f = 0 ] || { echo "demo: compile failed"; exit 8; }
clang++ %(san)s "$T"/o*.o -o "$T/demo" -lpthread || exit 8
cd "$T/run" && timeout 120 "$T/demo" %(input)s
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def seed(id, prop, edits, sources, demo, what, needs, protos=(), flags="", std="c++17", san="-fsanitize=address", support=(), check=True, threads=False, entry="demo_main", inputs=None):
    if threads: san = ""
    demo = demo.replace("int main()", 'extern "C" int demo_main()')
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    assert sh(f"git -C {R} status --porcelain").stdout == "", "repo dirty"
    try:
        for f, o, n in edits:
            t = open(f"{R}/{f}").read()
            assert t.count(o) == 1, (id, f, t.count(o), o)
            open(f"{R}/{f}", "w").write(t.replace(o, n))
        open(f"{d}/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
        open(f"{d}/demo.cpp", "w").write(demo)
        sh(f"cd {V} && tar --sort=name --mtime=@0 --owner=0 --group=0 -cf - shims lib/protolite.py lib/sym.h lib/rt.cpp lib/native.cpp {' '.join(support)} | gzip -n > {d}/stubs.tgz")
        srcs = " ".join(f'"$R/{s}"' for s in sources) + "".join(f' "$T/{s}"' for s in support)
        pr = f'python3 "$T/lib/protolite.py" "$R" "$T/gen" {" ".join(protos)} || exit 9' if protos else ""
        open(f"{d}/demo.sh", "w").write(DEMO % dict(protos=pr, std=std, flags=flags, srcs=srcs, san=san, entry=entry, thr=" -DNATIVE_THREADS" if threads else "", input='"$D/inputs.txt"' if inputs else "/dev/null"))
        if inputs: open(f"{d}/inputs.txt", "w").write(inputs)
        os.chmod(f"{d}/demo.sh", 0o755)
        b = sh("bash /opt/vp/build.sh", cwd=R); t = sh("bash /opt/vp/test.sh /tmp/seedtest.json", cwd=R)
        res = json.load(open("/tmp/seedtest.json")) if os.path.exists("/tmp/seedtest.json") else {}
        r = sh(f"bash {d}/demo.sh", cwd=R)
        print(id, "build", b.returncode, "tests", json.dumps(res)[:160], "demo with bug:", r.returncode, r.stdout[-200:].strip(), flush=True)
        bad = r.returncode in (0, 8, 9)
        if bad: print(r.stdout[-3000:])
        caught = "not tried"
        if check and not bad:
            c = sh(f"python3 {V}/run.py {prop} quick", cwd=V)
            caught = f"{prop}" if c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout else "missed"
            print("   check:", c.returncode, "\n".join(c.stdout.strip().splitlines()[-3:])[:500], flush=True)
    finally:
        sh(f"git -C {R} checkout -- .")
        sh("bash /opt/vp/build.sh", cwd=R)
    r = sh(f"bash {d}/demo.sh", cwd=R)
    print("   demo clean:", r.returncode, r.stdout[-1500:].strip() if r.returncode else "", flush=True)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what, "caught": caught}, open(f"{d}/meta.json", "w"), indent=1)
    if bad or r.returncode: print("   NOT USABLE"); os.rename(d, f"/tmp/seed_bad_{id}_{os.getpid()}")
