"""prepare.py REPO ROOT: a copy of parse-display-derive, compiled as an ordinary library.

A proc-macro crate can only be loaded by the compiler.  The copy (made again from the current tree on every run) loses
`proc-macro = true` and the `#[proc_macro_derive]` lines, and gains a module that re-exports what the kernels call.
So does parser_builder.rs: a method that tells which field each group is for.  Nothing else changes.
"""
import os, re, shutil, sys

repo, root = sys.argv[1:3]
src = os.path.join(repo, "parse-display-derive")
dst = os.path.join(root, "target/mirror/pdd")
shutil.rmtree(dst, ignore_errors=True)
shutil.copytree(os.path.join(src, "src"), os.path.join(dst, "src"))
lib = os.path.join(dst, "src/lib.rs")
s = open(lib).read()
s = re.sub(r"#\[proc_macro_derive\([^\]]*\)\]", "", s)
s += "\npub mod verif_kernels;\n"
open(lib, "w").write(s)
pb = os.path.join(dst, "src/parser_builder.rs")
if os.path.exists(pb):
    open(pb, "a").write(open(os.path.join(root, "harness/kernel/groups.rs")).read())
shutil.copy(os.path.join(root, "harness/kernel/kernels.rs"), os.path.join(dst, "src/verif_kernels.rs"))
t = open(os.path.join(src, "Cargo.toml")).read()
t = re.sub(r'(?m)^name = .*$', 'name = "pdd-mirror"', t, count=1)
t = re.sub(r'(?m)^(readme|repository|documentation|authors)\b.*\n', '', t)
t = re.sub(r'(?m)^proc-macro = true\s*$', '', t)
w = open(os.path.join(repo, "Cargo.toml")).read()


def ws(m):
    d = re.search(rf'(?m)^{re.escape(m[1])}\s*=\s*(.*)$', w)
    return f"{m[1]} = {d[1]}" if d else m[0]


t = re.sub(r'(?m)^([\w-]+)\s*=\s*\{\s*workspace = true\s*\}', ws, t)
fs = "[features]" + "".join(f"\n{k} = []" for k in ("k01", "k02", "k05", "k06", "k07", "k08"))
t = t.replace("[features]", fs) if "[features]" in t else t + "\n" + fs + "\n"
t = re.sub(r'(?s)\n\[dev-dependencies\].*?(?=\n\[|\Z)', '\n', t)
open(os.path.join(dst, "Cargo.toml"), "w").write(t)
