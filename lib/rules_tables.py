"""The case mapping tables, as the compiler lays them out, against Unicode's data."""
import os
import re
import unicodedata

import cxx
from vkdriver import NoAnswer, REPO, Violation

UNICODE = "15.0.0"


def _tables(run):
    out = {}
    for src in cxx.sources("2026"):
        if "casing_" not in open(src).read():
            continue
        r = cxx.compile_(run, src, ["-O0", "-S", "-emit-llvm", "-o", "-", "-g0"])
        if r.returncode:
            raise NoAnswer("%s does not compile: %s" % (src, cxx.first_error(r.stderr)))
        for line in r.stdout.splitlines():
            m = re.match(r"@\S*?(upper|lower)casing_(multi|single)\S* = [^=]*?constant \[(\d+) x [^\]]*?\] (\[.*)$", line)
            if not m:
                continue
            if "zeroinitializer" in m.group(4):
                raise NoAnswer("a table of %s has an empty entry" % src)
            numbers = [int(x) % 2**32 for x in re.findall(r"i32 (-?\d+)", m.group(4))]
            width = 4 if m.group(2) == "multi" else 2
            n = int(m.group(3))
            if len(numbers) != n * width:
                raise NoAnswer("a table of %s is laid out in an unknown way" % src)
            out[m.group(1), m.group(2)] = (src, [numbers[i * width:(i + 1) * width] for i in range(n)])
    return out


def _chars(cs):
    return "{" + ", ".join("U+%04X" % c for c in cs) + "}"


def case_tables(run):
    """Every scalar value's mapping by the tables is Unicode's own; keys are strictly ascending."""
    if unicodedata.unidata_version != UNICODE:
        raise NoAnswer("the reference data is not Unicode " + UNICODE)
    tables = _tables(run)
    for case in ("upper", "lower"):
        maps = {}
        for kind in ("multi", "single"):
            if (case, kind) not in tables:
                raise NoAnswer("no table %scasing_%s" % (case, kind))
            src, rows = tables[case, kind]
            name = "%scasing_%s" % (case, kind)
            where = [os.path.relpath(src, REPO) + ": " + name]
            for a, b in zip(rows, rows[1:]):
                run.obligations += 1
                if a[0] < b[0]:
                    run.discharged += 1
                else:
                    run.add(Violation("tables:order:%s:%d" % (name, b[0]), "%s: the entry of U+%04X does not follow that of U+%04X, so a binary search "
                                      "does not find every entry" % (name, b[0], a[0]), where))
            for row in rows:
                to = row[1:]
                while len(to) > 1 and to[-1] == 0:
                    to = to[:-1]
                run.obligations += 1
                if row[0] in maps or row[0] < 128 or (kind == "multi" and len(to) < 2):
                    run.add(Violation("tables:entry:%s:%d" % (name, row[0]), "%s: the entry of U+%04X is never used or has a second one" % (name, row[0]), where))
                else:
                    run.discharged += 1
                maps.setdefault(row[0], (to, where))
            run.units.append({"table": name, "entries": len(rows)})
        for c in range(128, 0x110000):
            if 0xD800 <= c < 0xE000:
                continue
            want = [ord(x) for x in (chr(c).upper() if case == "upper" else chr(c).lower())]
            got, where = maps.pop(c, ([c], ["src/pystd2026_tables.cpp"]))
            run.obligations += 1
            if got == want:
                run.discharged += 1
            else:
                run.add(Violation("tables:%s:%d" % (case, c), "%s case of U+%04X: the tables say %s, Unicode says %s" % (case, c, _chars(got), _chars(want)), where))
        for c in maps:
            run.obligations += 1
            run.add(Violation("tables:%s:%d" % (case, c), "U+%04X is no character but has an entry" % c))
    run.rules.append("for every scalar value from U+0080 the %s tables give the mapping of Unicode %s; keys strictly ascending and unique" % ("four", UNICODE))
