"""Rules on headers and translation units as wholes."""
import concurrent.futures as cf
import os
import re

import cxx
from vkdriver import REPO, Violation


def _each(run, jobs, work):
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for job, r in zip(jobs, ex.map(work, jobs)):
            yield job, r


def headers_stand_alone(run):
    """Every header compiles on its own, twice, after and before every other, and defines no strong symbol."""
    hs = cxx.headers()
    jobs = []
    for h in hs:
        jobs.append(("alone", h, [h]))
        jobs.append(("twice", h, [h, h]))
        jobs.append(("first", h, [h] + [x for x in hs if x != h] + [h]))
        jobs.append(("last", h, [x for x in hs if x != h] + [h]))
        for g in hs:
            if g < h:
                jobs.append(("pair", "%s, %s" % (g, h), [g, h, g]))
                jobs.append(("pair", "%s, %s" % (h, g), [h, g, h]))

    def work(j):
        kind, name, inc = j
        src = cxx.unit(run, "h_%s.cpp" % re.sub(r"\W+", "_", kind + name), "".join("#include <%s>\n" % i for i in inc))
        return cxx.compile_(run, src, ["-fsyntax-only"])

    for (kind, name, inc), r in _each(run, jobs, work):
        run.obligations += 1
        if r.returncode:
            run.add(Violation("units:%s:%s" % (kind, name), "headers included %s (%s) do not compile" % (kind, name), [cxx.first_error(r.stderr)]))
        else:
            run.discharged += 1
    # definitions a header forces into every unit that includes it
    src = cxx.unit(run, "all_headers.cpp", "".join("#include <%s>\n" % h for h in hs))
    syms = cxx.defined_symbols(run, src)
    for s, l in sorted(syms.items()):
        run.obligations += 1
        if l in ("strong", "weak"):
            run.add(Violation("units:strong:" + s, "a header defines `%s` in every translation unit that includes it (duplicate definitions at link time)" % s))
        else:
            run.discharged += 1
    run.rules.append("each header: alone, twice, first and last of all headers, all ordered pairs; no strong definition in a headers-only unit")
    run.units.append({"headers": len(hs), "compilations": len(jobs), "symbols": len(syms)})


def _walk(node, path, out, hdr):
    k = node.get("kind")
    if k in ("ClassTemplateDecl", "FunctionTemplateDecl", "ClassTemplatePartialSpecializationDecl"):
        return
    if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
        out.append((node, path))
        return
    name = node.get("name", "")
    for c in node.get("inner", []) or []:
        if isinstance(c, dict) and c.get("kind"):
            if k in ("NamespaceDecl", "CXXRecordDecl", "LinkageSpecDecl"):
                _walk(c, path + [name], out, hdr)


def everything_declared_is_defined(run):
    """Every non-template function a header declares has a definition in the library sources."""
    for epoch in ("2025", "2026"):
        hs = cxx.headers(epoch)
        src = cxx.unit(run, "decl_%s.cpp" % epoch, "".join("#include <%s>\n" % h for h in hs))
        decls = []
        for top in cxx.ast(run, src, "pystd" + epoch):
            _walk(top, [], decls, None)
        defined = {}
        srcs = cxx.sources(epoch) + [s for s in cxx.sources() if "common" in s]
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            for s, d in zip(srcs, ex.map(lambda s: cxx.defined_symbols(run, s), srcs)):
                for n, l in d.items():
                    if l == "strong" and n in defined and defined[n] != s:
                        run.obligations += 1
                        run.add(Violation("units:dup:" + n, "`%s` is defined in both %s and %s" % (n, defined[n], s)))
                    if l in ("strong", "weak_odr", "linkonce_odr", "weak"):
                        defined.setdefault(n, s)
        seen = set()
        have_body = set()
        for n, path in decls:
            if any(isinstance(c, dict) and c.get("kind") == "CompoundStmt" for c in n.get("inner", []) or []):
                have_body.add(n.get("mangledName"))
        for n, path in decls:
            m = n.get("mangledName")
            if not m or m in seen or n.get("isImplicit") or n.get("explicitlyDeleted") or n.get("explicitlyDefaulted") or n.get("pure"):
                continue
            seen.add(m)
            run.obligations += 1
            cands = {m, m.replace("C1E", "C2E", 1), m.replace("D1E", "D2E", 1)}
            if m in have_body or n.get("constexpr") and m in have_body or cands & set(defined):
                run.discharged += 1
                continue
            loc = n.get("loc", {})
            run.add(Violation("units:undefined:%s" % m, "%s::%s is declared in a header but defined nowhere (link error for users)" % ("::".join(path), n.get("name")),
                              ["line %s" % (loc.get("line") or n.get("range", {}).get("begin", {}).get("line"))], m))
        run.units.append({"epoch": epoch, "declared": len(seen), "defined_symbols": len(defined)})
    run.rules.append("every function with external linkage a header declares has exactly one definition among the library sources")


# ---- epochs ---------------------------------------------------------------
EPOCHS = ("2025", "2026")


def _mentions(sym, epoch):
    return "pystd" + epoch in sym


def epochs_are_isolated(run):
    """Nothing of one epoch refers to another; everything an epoch exports carries its own name."""
    for e in EPOCHS:
        others = [o for o in EPOCHS if o != e]
        # headers
        for h in cxx.headers(e):
            src = cxx.unit(run, "iso_%s.cpp" % h.replace(".", "_"), "#include <%s>\n" % h)
            r = cxx.compile_(run, src, ["-E", "-dD"])
            if r.returncode:
                continue  # reported by the header property
            cur, skip = "", False
            files, macros = set(), []
            for line in r.stdout.splitlines():
                m = re.match(r'# \d+ "([^"]*)"', line)
                if m:
                    cur = m.group(1)
                    if cur.startswith(REPO):
                        files.add(os.path.basename(cur))
                    continue
                m = re.match(r"#define (\w+)", line)
                if m and cur.startswith(REPO):
                    macros.append((os.path.basename(cur), m.group(1)))
                elif line.startswith("#undef") and cur.startswith(REPO):
                    macros.append((os.path.basename(cur), line.split()[1]))
            run.obligations += 1
            bad = [f for f in files if any(o in f for o in others)]
            if bad:
                run.add(Violation("epoch:include:%s:%s" % (h, bad[0]), "%s pulls in %s of another epoch" % (h, ", ".join(bad))))
            else:
                run.discharged += 1
            for f, m in macros:
                run.obligations += 1
                if not m.startswith("PYSTD") or any("PYSTD" + o in m for o in others):
                    run.add(Violation("epoch:macro:" + m, "%s defines or undefines the macro %s in every user's code" % (f, m)))
                else:
                    run.discharged += 1
        # names a header adds outside its namespace
        src = cxx.unit(run, "iso_all_%s.cpp" % e, "".join("#include <%s>\n" % h for h in cxx.headers(e)))
        for name, kind, where in _global_names(run, src):
            run.obligations += 1
            if name == "pystd" + e or name == "operator new":  # (placement new has to be global)
                run.discharged += 1
            else:
                run.add(Violation("epoch:global:%s:%s" % (e, name), "headers of epoch %s declare %s `%s` outside namespace pystd%s" % (e, kind, name, e), [where]))
    # translation units
    owner = {}
    for s in cxx.sources():
        mine = [e for e in EPOCHS if e in os.path.basename(s)]
        r = cxx.compile_(run, s, ["-O0", "-S", "-emit-llvm", "-o", "-", "-g0"])
        if r.returncode:
            from vkdriver import NoAnswer
            raise NoAnswer("%s does not compile: %s" % (s, cxx.first_error(r.stderr)))
        defs = cxx.defined_symbols(run, s)
        base = os.path.basename(s)
        for sym in sorted(set(re.findall(r"@([\w.$]+)", r.stdout))):
            if not any(_mentions(sym, e) for e in EPOCHS):
                continue
            run.obligations += 1
            wrong = [e for e in EPOCHS if e not in mine and _mentions(sym, e)]
            if wrong and mine:
                run.add(Violation("epoch:ref:%s:%s" % (base, sym), "%s (epoch %s) refers to %s of epoch %s" % (base, mine[0], sym, wrong[0])))
            else:
                run.discharged += 1
        for sym, l in sorted(defs.items()):
            if l not in ("strong", "weak", "weak_odr", "linkonce_odr"):
                continue
            run.obligations += 1
            if l == "strong" and sym in owner:
                run.add(Violation("epoch:dup:" + sym, "`%s` is defined by both %s and %s" % (sym, owner[sym], base)))
                continue
            if l == "strong":
                owner[sym] = base
            ok = True
            if mine and l == "strong":
                ok = _mentions(sym, mine[0]) or sym.startswith("linker_remove_me")
            if not ok:
                run.add(Violation("epoch:export:%s:%s" % (base, sym), "%s exports `%s`, which is not in namespace pystd%s" % (base, sym, mine[0])))
            else:
                run.discharged += 1
    run.rules.append("no include, macro, reference or exported symbol crosses epochs; one definition per exported symbol")


def _global_names(run, src):
    """Declarations /repo's headers make at global scope: (name, kind, where)."""
    import json
    r = cxx.compile_(run, src, ["-fsyntax-only", "-Xclang", "-ast-dump=json"])
    if r.returncode:
        return
    tu = json.loads(r.stdout)
    cur = [""]

    def track(loc):
        for k in ("file",):
            if isinstance(loc, dict):
                if "expansionLoc" in loc:
                    track(loc["expansionLoc"])
                elif k in loc:
                    cur[0] = loc[k]

    def visit(n, depth):
        if not isinstance(n, dict):
            return
        # clang prints a file only where it changes, in traversal order
        track(n.get("loc", {}))
        rg = n.get("range", {})
        here = cur[0]
        track(rg.get("begin", {}))
        track(rg.get("end", {}))
        if depth == 1 and here.startswith(REPO) and not n.get("isImplicit"):
            names.append((n.get("name", "?"), n.get("kind"), "%s:%s" % (here, n.get("loc", {}).get("line", ""))))
        for c in n.get("inner", []) or []:
            visit(c, depth + 1)

    names = []
    import sys
    sys.setrecursionlimit(10000)
    visit(tu, 0)
    return names


# ---- the frozen epoch -------------------------------------------------------
BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "frozen_2025.json")
LAYOUTS = ["Vector<int>", "Vector<pystd2025::U8String>", "unique_ptr<int>", "unique_arr<int>", "Optional<int>", "Optional<int*>", "Span<int>",
           "Expected<int, pystd2025::PyException>", "Variant<int, pystd2025::U8String>", "HashMap<int, int>", "HashSet<int>"]


def _public(node, path, access, out):
    k = node.get("kind")
    name = node.get("name", "")
    if node.get("isImplicit"):
        return
    if k == "NamespaceDecl":
        for c in node.get("inner", []) or []:
            _public(c, path + [name], "public", out)
    elif k in ("ClassTemplateDecl", "FunctionTemplateDecl"):
        inner = [c for c in node.get("inner", []) or [] if c.get("kind") in ("CXXRecordDecl", "FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl")]
        par = [c.get("kind") + ":" + c.get("type", {}).get("qualType", "") for c in node.get("inner", []) or [] if "Parm" in c.get("kind", "") and c.get("kind", "").endswith(("TypeParmDecl", "TemplateParmDecl"))]
        if inner:
            if access == "public":
                out.add("::".join(path + [name]) + " template<" + ", ".join(par) + ">")
            _public(inner[0], path, access, out)
    elif k == "CXXRecordDecl":
        if not node.get("completeDefinition") or access != "public":
            return
        out.add("::".join(path + [name]) + " " + node.get("tagUsed", ""))
        a = "private" if node.get("tagUsed") == "class" else "public"
        for c in node.get("inner", []) or []:
            if c.get("kind") == "AccessSpecDecl":
                a = c.get("access")
                continue
            _public(c, path + [name], a, out)
    elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl", "CXXDestructorDecl"):
        if access != "public" or "operator" in path:
            return
        dflt = [("=" if c.get("init") else "") for c in node.get("inner", []) or [] if c.get("kind") == "ParmVarDecl"]
        out.add("%s : %s [%s]%s%s" % ("::".join(path + [name]), node.get("type", {}).get("qualType", ""), ",".join(dflt),
                                      " deleted" if node.get("explicitlyDeleted") else "", " " + node["storageClass"] if node.get("storageClass") == "static" and len(path) > 1 else ""))
    elif k == "EnumDecl":
        if access != "public":
            return
        for i, c in enumerate(x for x in node.get("inner", []) or [] if x.get("kind") == "EnumConstantDecl"):
            v = ""
            for y in c.get("inner", []) or []:
                v = y.get("value", v)
            out.add("::".join(path + [name, c.get("name", "")]) + " enumerator %s" % (v or "#%d" % i))
    elif k == "FieldDecl":
        if access == "public":
            out.add("::".join(path + [name]) + " field " + node.get("type", {}).get("qualType", ""))
    elif k in ("TypedefDecl", "TypeAliasDecl"):
        if access == "public":
            out.add("::".join(path + [name]) + " alias " + node.get("type", {}).get("qualType", ""))


def interface(run, epoch):
    src = cxx.unit(run, "api_%s.cpp" % epoch, "".join("#include <%s>\n" % h for h in cxx.headers(epoch)))
    out = set()
    for top in cxx.ast(run, src, "pystd" + epoch):
        if top.get("kind") == "NamespaceDecl":
            _public(top, [], "public", out)
    return out


def layouts(run, epoch, names):
    """sizeof and alignof of every named class, from the constants the compiler emits."""
    text = "".join("#include <%s>\n" % h for h in cxx.headers(epoch))
    text += "using namespace pystd%s;\n" % epoch
    for i, n in enumerate(names):
        text += 'extern "C" const unsigned long lay_%d[2] = {sizeof(%s), alignof(%s)};\n' % (i, n, n)
    src = cxx.unit(run, "lay.cpp", text)
    r = cxx.compile_(run, src, ["-O0", "-S", "-emit-llvm", "-o", "-", "-g0"])
    if r.returncode:
        return None, cxx.first_error(r.stderr)
    res = {}
    for m in re.finditer(r"@lay_(\d+) = .*?\[2 x i64\] \[i64 (\d+), i64 (\d+)\]", r.stdout):
        res[names[int(m.group(1))]] = [int(m.group(2)), int(m.group(3))]
    return res, None


def snapshot(run):
    api = sorted(interface(run, "2025"))
    classes = sorted({a.rsplit(" ", 1)[0] for a in api if a.endswith((" class", " struct"))})
    keep = []
    for c in classes:
        got, err = layouts(run, "2025", [c])
        if got:
            keep.append(c)
    keep += [l for l in LAYOUTS if layouts(run, "2025", [l])[0]]
    lay, err = layouts(run, "2025", keep)
    return {"api": api, "layout": lay}


def frozen_epoch_unchanged(run):
    import json
    base = json.load(open(BASE))
    now = interface(run, "2025")
    now |= {n.replace(" noexcept", "") for n in now}  # promising more is compatible
    for a in base["api"]:
        run.obligations += 1
        if a in now:
            run.discharged += 1
        else:
            run.add(Violation("frozen:api:" + a, "the frozen 2025 interface no longer has `%s`" % a, [x for x in sorted(now) if x.split(" ")[0] == a.split(" ")[0]][:3]))
    lay, err = layouts(run, "2025", list(base["layout"]))
    run.obligations += len(base["layout"])
    if lay is None:
        run.add(Violation("frozen:layout", "classes of the frozen epoch can no longer be named: " + err))
    else:
        for n, v in base["layout"].items():
            if lay.get(n) == v:
                run.discharged += 1
            else:
                run.add(Violation("frozen:layout:" + n, "size/alignment of %s changed from %s to %s (binary interface of the frozen epoch)" % (n, v, lay.get(n))))
    run.rules.append("every public declaration of the 2025 epoch recorded at the pinned commit is still there with the same type; class sizes and alignments unchanged")
    run.units.append({"public_declarations": len(base["api"]), "layouts": len(base["layout"])})
