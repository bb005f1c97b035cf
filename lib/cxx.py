"""Access to /repo's current code through the compiler: syntax trees, IR, symbols."""
import glob
import json
import os
import re

from vkdriver import CLANG, REPO, NoAnswer


def headers(epoch=None):
    hs = sorted(os.path.basename(h) for h in glob.glob(os.path.join(REPO, "include", "*.hpp")))
    return [h for h in hs if epoch is None or epoch in h]


def sources(epoch=None):
    ss = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    return [s for s in ss if epoch is None or epoch in os.path.basename(s)]


def unit(run, name, text):
    p = os.path.join(run.tmp, name)
    with open(p, "w") as f:
        f.write(text)
    return p


def compile_(run, path, extra, out=None, base=None):
    cmd = [CLANG] + (base or run.base_flags()) + ["-w"] + list(extra) + [path]
    if out:
        cmd += ["-o", out]
    return run.sh(cmd, timeout=800)


def first_error(stderr):
    for line in stderr.splitlines():
        if ": error:" in line or ": fatal error:" in line:
            return line.strip()
    return stderr.strip().splitlines()[0] if stderr.strip() else "?"


def ast(run, path, name):
    """Top level nodes of the syntax tree matching `name`."""
    r = compile_(run, path, ["-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + name])
    if r.returncode:
        raise NoAnswer("%s does not compile: %s" % (path, first_error(r.stderr)))
    dec = json.JSONDecoder()
    out, i, s = [], 0, r.stdout
    while True:
        while i < len(s) and s[i] != "{":
            i += 1
        if i >= len(s):
            return out
        node, i = dec.raw_decode(s, i)
        out.append(node)


def defined_symbols(run, src, extra=()):
    """name -> linkage of everything a translation unit defines."""
    r = compile_(run, src, ["-O0", "-S", "-emit-llvm", "-o", "-", "-g0"] + list(extra))
    if r.returncode:
        raise NoAnswer("%s does not compile: %s" % (src, first_error(r.stderr)))
    out = {}
    for line in r.stdout.splitlines():
        m = re.match(r'define (?:(\w+) )?.*?@("?)([\w.$]+)\2\(', line)
        if m:
            out[m.group(3)] = linkage(line.split("@")[0])
            continue
        m = re.match(r'@("?)([\w.$]+)\1 = (.*?)\b(global|constant|alias)\b', line)
        if m and not m.group(2).startswith(("llvm.", ".str", "__const")):
            out[m.group(2)] = linkage(m.group(3)) if "external" not in m.group(3) else "declared"
    return out


def linkage(text):
    for k in ("linkonce_odr", "weak_odr", "linkonce", "weak", "internal", "private", "available_externally", "appending"):
        if re.search(r"\b%s\b" % k, text):
            return k
    return "strong"
