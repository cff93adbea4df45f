"""c20.py LIB ORACLE [--seed N --ms N --out FILE | --replay FILE]

Runs random programs on the Python package and the same operations on the Rust
API (`oracle api`) and compares every result and the state of the objects. Same
interface as the oracle: exit 1 and a violation when they differ."""
import argparse
import importlib.util
import json
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback

T = ["", "a", "b", "msgid", "x y", "tab\there", "line\nbreak", 'say "hi"', "back\\slash", "漢字 text", "é", "\\x", "\\", "\\n\\t", "100% of {name} in a long text that needs to be wrapped somewhere because it is more than one line",
     "\x0b\x0c", "\r", "fuzzy", "menu", "Language"]
PO = ["msgid", "msgstr", "msgid_plural", "msgstr_plural", "msgctxt", "obsolete", "comment", "tcomment", "occurrences", "flags",
      "previous_msgid", "previous_msgid_plural", "previous_msgctxt", "linenum"]
MO = PO[:5]
NEW = {"POEntry": ["msgid", "msgstr", "msgid_plural", "msgstr_plural", "msgctxt", "tcomment", "comment", "flags"], "MOEntry": MO}
LISTS = {"msgstr_plural", "flags", "occurrences"}
DEF = {"msgid": "", "obsolete": False, "linenum": 0, "msgstr_plural": [], "flags": [], "occurrences": []}
BY = ["msgid", "msgstr", "msgctxt", "msgid_plural", "previous_msgid", "previous_msgid_plural", "previous_msgctxt", "nothing"]
CMP = {"POEntry": ["msgid", "msgstr", "msgctxt", "obsolete", "msgid_plural", "msgstr_plural", "occurrences", "flags"],
       "MOEntry": ["msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr_plural"]}
PAIRS = [["a.c", "1"], ["b.c", ""], ["src/漢.rs", "12"], ["a.c", "2"]]


def value(r, f):
    if f == "obsolete":
        return r.random() < 0.5
    if f == "linenum":
        return r.randrange(100)
    if f == "occurrences":
        return [r.choice(PAIRS) for _ in range(r.randrange(3))]
    if f == "flags":
        return [r.choice(["fuzzy", "c-format", "no-wrap"]) for _ in range(r.randrange(3))]
    if f == "msgstr_plural":
        return [r.choice(T) for _ in range(r.randrange(4))]
    if f != "msgid" and r.random() < 0.3:
        return None
    return r.choice(T[:3] if r.random() < 0.6 else T)


def meta(r):
    return {r.choice(["Language", "X-a", "X-2", "MIME-Version", "Plural-Forms", "x"]): r.choice(["", "es", "1.0", "a: b"]) for _ in range(r.randrange(4))}


def po_text(r):
    if r.random() < 0.3:
        return r.choice(["", 'msgid "a"\nmsgstr "b"\n', '#~ msgid "a"\n#~ msgstr "b"\n\nmsgid "b"\nmsgstr ""\n'])
    out = []
    for _ in range(r.randrange(4)):
        out.append(r.choice(["#, fuzzy\n", "#: a.c:1\n", "# c\n", "", "", '#~ msgid "a"\n#~ msgstr "z"\n\n', ""]))
        out.append(r.choice(['msgid "a"\nmsgstr "b"\n\n', 'msgid ""\nmsgstr "Language: es\\n"\n\n', 'msgctxt "menu"\nmsgid "a"\nmsgstr ""\n\n',
                             'msgid "a"\nmsgid_plural "x"\nmsgstr[0] "p"\nmsgstr[1] "q"\n\n', 'msgid "a" b "\n', 'msgid "\\x"\n', "nonsense\n"]))
    return "".join(out)


def program(r, n):
    """-> steps [op, handle, args]; objects are numbered as they are made"""
    prog, kinds = [], []

    def make(k):
        if k in NEW:
            fs = {f: value(r, f) for f in NEW[k] if r.random() < 0.7}
            prog.append([k, None, [fs]])
        else:
            w = r.choice([None, 0, 20, 78, 200])
            t = po_text(r) if k == "pofile" else r.choice(["@mo", "@mo", "@mobe", "nothing-here"])
            prog.append([k, None, [t, w, r.random() < 0.5]])
        kinds.append(k)

    for k in ("POEntry", "POEntry", "MOEntry", "MOEntry", "pofile", "mofile"):
        make(k)
    for _ in range(n):
        if r.random() < 0.12:
            make(r.choice(["POEntry", "MOEntry", "pofile", "mofile"]))
            continue
        if r.random() < 0.06:
            prog.append([r.choice(["escape", "unescape"]), None, [r.choice(T) + r.choice(T)]])
            continue
        h = r.randrange(len(kinds))
        k = kinds[h]
        po = k in ("POEntry", "pofile")
        if k in NEW:
            same = [i for i, x in enumerate(kinds) if x == k]
            op = r.choice(["set", "set", "set", "fuzzy", "translated", "str", "width", "eot", "merge", "cmp", "cmp_by", "cmp", "cmp_by"])
            if op == "fuzzy" and not po:
                continue
            if op == "set":
                f = r.choice(PO if po else MO)
                a = [f, value(r, f)]
            elif op == "width":
                a = [r.choice([0, 1, 10, 20, 78, 300])]
            elif op == "merge" or op == "cmp":
                # merging a message into itself has no Rust counterpart
                a = [r.choice([i for i in same if i != h or op == "cmp"])]
            elif op == "cmp_by":
                a = [r.choice(same), {f: r.random() < 0.5 for f in CMP[k] if r.random() < 0.8}]
            else:
                a = []
        else:
            ents = [i for i, x in enumerate(kinds) if x == ("POEntry" if po else "MOEntry")]
            files = [i for i, x in enumerate(kinds) if x == k]
            op = r.choice(["set_entries", "set_header", "set_metadata", "update_metadata", "remove_metadata_field", "set_metadata_is_fuzzy", "set_wrapwidth",
                           "save", "save_as_pofile", "save_as_mofile", "remove", "remove_by_msgid", "remove_by_msgid_msgctxt", "append", "append", "append", "find", "find",
                           "find_by_msgid", "find_by_msgid_msgctxt", "percent_translated", "translated_entries", "untranslated_entries", "obsolete_entries",
                           "fuzzy_entries", "metadata_as_entry", "as_bytes", "as_bytes_le", "as_bytes_be", "as_bytes_with", "len", "contains", "contains",
                           "getitem", "str", "eq", "eq", "iter"])
            if not po and op in ("set_header", "set_metadata_is_fuzzy", "percent_translated", "translated_entries", "untranslated_entries",
                                 "obsolete_entries", "fuzzy_entries"):
                continue
            a = []
            if op == "set_entries":
                a = [[r.choice(ents) for _ in range(r.randrange(4))]]
            elif op == "set_header":
                a = [r.choice([None, "h", "two\nlines", ""])]
            elif op in ("set_metadata", "update_metadata"):
                a = [meta(r)]
            elif op == "remove_metadata_field":
                a = [r.choice(["Language", "X-a", "none"])]
            elif op == "set_metadata_is_fuzzy":
                a = [r.random() < 0.5]
            elif op == "set_wrapwidth":
                a = [r.choice([0, 10, 78, 100])]
            elif op in ("remove", "append", "contains"):
                a = [r.choice(ents)]
            elif op in ("remove_by_msgid", "find_by_msgid"):
                a = [r.choice(T[:3])]
            elif op in ("remove_by_msgid_msgctxt", "find_by_msgid_msgctxt"):
                a = [r.choice(T[:3]), r.choice(T[:3] + ["menu"])]
            elif op == "find":
                # None where the default is used
                a = [r.choice(T[:3]), r.choice(BY + ["msgid", "msgid", None, None]), r.choice([None, None, "", "a", "menu"]), r.choice([None, True, False])]
            elif op == "as_bytes_with":
                a = [r.choice(["MAGIC", "MAGIC_SWAPPED"]), r.choice([0, 1])]
            elif op == "getitem":
                a = [r.randrange(4)]
            elif op == "eq":
                a = [r.choice(files)]
        prog.append([op, h, a])
    return prog


class Ended(Exception):
    """the Rust side was ended by the code under test; other checks report that"""


class Rust:
    def __init__(self, oracle):
        self.oracle = oracle
        self.start()

    def start(self):
        self.p = subprocess.Popen([self.oracle, "api"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8")

    def __call__(self, op, h=None, a=()):
        l = ""
        try:
            self.p.stdin.write(json.dumps({"op": op, "h": h or 0, "a": list(a)}) + "\n")
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except BrokenPipeError:
            pass
        if not l:
            self.p.wait()
            self.start()
            raise Ended
        return json.loads(l)


def edump(e, fields):
    d = {}
    for f in fields:
        v = getattr(e, "get_" + f)() if f in LISTS else getattr(e, f)
        d[f] = [list(x) for x in v] if f == "occurrences" else v
    return d


def fdump(f, po):
    d = {"entries": [edump(e, PO if po else MO) for e in f.get_entries()], "metadata": f.get_metadata(), "wrapwidth": f.wrapwidth,
         "path_or_content": f.path_or_content}
    b = f.bytes_content if po else f.byte_content
    d["bytes"] = None if b is None else list(b)
    if po:
        d["header"] = f.header
        d["metadata_is_fuzzy"] = f.metadata_is_fuzzy
    else:
        d["magic_number"] = f.magic_number
        d["version"] = f.version
    return d


def dump(o, k):
    return edump(o, PO if k == "POEntry" else MO) if k in NEW else fdump(o, k == "pofile")


def attempt(m, fn):
    try:
        return {"ok": fn()}
    except m.SyntaxError as e:
        return {"err": "SyntaxError", "text": str(e)}
    except m.IOError as e:
        return {"err": "IOError", "text": str(e)}
    except m.EscapingError as e:
        return {"err": "EscapingError", "text": str(e)}
    except IndexError:
        return {"err": "IndexError"}
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return {"err": "panic" if type(e).__name__ == "PanicException" else f"{type(e).__name__}: {e}"}


def names(m, rs, o):
    """the package has the names of the API"""
    if [m.MOFile.MAGIC, m.MOFile.MAGIC_SWAPPED] != rs("magic")["ok"]:
        return f"MAGIC is {m.MOFile.MAGIC:#x}, MAGIC_SWAPPED {m.MOFile.MAGIC_SWAPPED:#x}"


def run(m, rs, prog, scratch):
    """-> what differs, or None"""
    rs("reset")
    bad = names(m, rs, None)
    if bad:
        return bad
    objs, kinds, slot = [], [], []
    for n, (op, h, a) in enumerate(prog):
        # arguments by position or by name
        pos = n % 2 == 1
        where = f"step {n} {json.dumps([op, h, a], ensure_ascii=False)[:300]}: "
        if op in NEW or op in ("pofile", "mofile"):
            if op in NEW:
                full = dict({f: DEF.get(f) for f in (PO if op == "POEntry" else MO)}, **a[0])
                want = rs(op, None, [full])
                got = attempt(m, lambda: getattr(m, op)(*[full[f] for f in NEW[op]]) if pos else getattr(m, op)(**a[0]))
            else:
                t, w, cls = a
                if t in ("@mo", "@mobe"):
                    t = f"{scratch}/{t[1:]}.mo"
                want = rs(op, None, [t, 78 if w is None else w])
                mk = {("pofile", True): m.POFile, ("pofile", False): m.pofile, ("mofile", True): m.MOFile, ("mofile", False): m.mofile}[op, cls]
                got = attempt(m, lambda: mk(t) if w is None else mk(t, w) if pos else mk(t, wrapwidth=w))
            if ("ok" in got) != ("ok" in want) or ("err" in got and got != want):
                return f"{where}Python {str(got)[:300]}, Rust {want}"
            if "ok" in got:
                objs.append(got["ok"])
                slot.append(want["ok"])
                kinds.append(op)
                d = attempt(m, lambda: dump(objs[-1], op))
                w = rs("dump", slot[-1])
                if d != w:
                    return f"{where}the object is {d} in Python and {w} in Rust"
            else:
                objs.append(None)
                slot.append(None)
                kinds.append(op)
            continue
        if op in ("escape", "unescape"):
            want = rs(op, None, a)
            got = attempt(m, lambda: getattr(m, op)(a[0]))
            if got != want:
                return f"{where}Python {got}, Rust {want}"
            continue
        o, k = objs[h], kinds[h]
        if o is None:
            continue
        refs = a[0] if op == "set_entries" else [a[0]] if op in ("remove", "append", "contains", "merge", "cmp", "cmp_by", "eq") else []
        if any(objs[i] is None for i in refs):
            continue
        po = k in ("POEntry", "pofile")
        fs = PO if po else MO
        b = list(a)
        if op == "set_entries":
            b[0] = [slot[i] for i in a[0]]
        elif refs:
            b[0] = slot[a[0]]
        arg = objs[a[0]] if refs and op != "set_entries" else None
        ent = lambda e: None if e is None else edump(e, fs)
        ents = lambda l: [edump(e, fs) for e in l]
        want = None
        if op == "set":
            fn = lambda: setattr(o, a[0], [tuple(x) for x in a[1]] if a[0] == "occurrences" else a[1])
        elif op == "fuzzy":
            fn = lambda: o.fuzzy
        elif op == "str":
            fn = lambda: str(o)
        elif op == "width":
            fn = lambda: o.to_string_with_wrapwidth(a[0])
        elif op == "eot":
            fn = lambda: o.msgid_eot_msgctxt()
        elif op == "cmp":
            c = rs("cmp", slot[h], b)["ok"]
            want = {"ok": [c, c == 0, c != 0, c > 0, c >= 0, c < 0, c <= 0]}
            fn = lambda: [o.__cmp__(arg), o == arg, o != arg, o > arg, o >= arg, o < arg, o <= arg]
        elif op == "cmp_by":
            b[1] = dict({f: True for f in CMP[k]}, **a[1])
            if not po:
                b[1].update(obsolete=False, occurrences=False, flags=False)
            fn = lambda: o.cmp_by(arg, *[b[1][f] for f in CMP[k]]) if pos else o.cmp_by(arg, **a[1])
        elif op == "merge":
            fn = lambda: o.merge(arg)
        elif op == "set_entries":
            fn = lambda: setattr(o, "entries", [objs[i] for i in a[0]])
        elif op.startswith("set_"):
            fn = lambda: setattr(o, op[4:], a[0])
        elif op.startswith("save"):
            p = f"{scratch}/saved"
            want = rs(op, slot[h], [p + "-r"])
            fn = lambda: getattr(o, op)(p + "-p")
        elif op in ("remove", "append"):
            fn = lambda: getattr(o, op)(arg)
        elif op == "contains":
            fn = lambda: arg in o
        elif op == "find":
            b = [a[0], a[1] or "msgid", a[2], bool(a[3])]
            kw = {}
            if a[1] is not None:
                kw["by"] = a[1]
            if a[2] is not None:
                kw["msgctxt"] = a[2]
            if a[3] is not None and po:
                kw["include_obsolete_entries"] = a[3]
            args = [a[0], b[1]] + ([b[3]] if po else []) + [a[2]]
            fn = lambda: ents(o.find(*args) if pos else o.find(a[0], **kw))
        elif op in ("find_by_msgid", "find_by_msgid_msgctxt"):
            fn = lambda: ent(getattr(o, op)(*a))
        elif op.endswith("_entries"):
            fn = lambda: ents(getattr(o, op)())
        elif op == "metadata_as_entry":
            fn = lambda: ent(o.metadata_as_entry())
        elif op == "as_bytes_with":
            b = [getattr(m.MOFile, a[0]), a[1]]
            fn = lambda: list(o.as_bytes_with(*b))
        elif op.startswith("as_bytes"):
            fn = lambda: list(getattr(o, op)())
        elif op == "len":
            fn = lambda: len(o)
        elif op == "getitem":
            fn = lambda: ent(o[a[0]])
        elif op == "eq":
            e = rs("eq", slot[h], b)
            want = {"ok": [e["ok"], not e["ok"]]}
            fn = lambda: [o == arg, o != arg]
        elif op == "iter":
            want = {"ok": rs("dump", slot[h])["ok"]["entries"]}
            fn = lambda: ents(list(o))
        else:
            fn = lambda: getattr(o, op)(*a)
        if want is None:
            want = rs(op, slot[h], b)
        got = attempt(m, fn)
        if got != want:
            return f"{where}Python {json.dumps(got, ensure_ascii=False)[:700]}, Rust {json.dumps(want, ensure_ascii=False)[:700]}"
        if op.startswith("save") and "ok" in got:
            x, y = open(p + "-p", "rb").read(), open(p + "-r", "rb").read()
            os.remove(p + "-p")
            os.remove(p + "-r")
            if x != y:
                return f"{where}Python writes {x[:300]}, Rust {y[:300]}"
        for i in {h, *refs}:
            d = attempt(m, lambda: dump(objs[i], kinds[i]))
            w = rs("dump", slot[i])
            if d != w:
                return f"{where}afterwards object {i} is {json.dumps(d, ensure_ascii=False)[:700]} in Python and {json.dumps(w, ensure_ascii=False)[:700]} in Rust"
    return None


def shrink(m, rs, prog, scratch, until):
    """drops steps that are not needed for the difference"""
    i = len(prog) - 1
    while i >= 0 and time.time() < until:
        # objects are numbered, so only steps that make none are dropped
        if prog[i][1] is not None or prog[i][0] in ("escape", "unescape"):
            p = prog[:i] + prog[i + 1:]
            try:
                if run(m, rs, p, scratch):
                    prog = p
            except Ended:
                pass
        i -= 1
    return prog


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("lib")
    ap.add_argument("oracle")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--ms", type=int, default=15000)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    o = ap.parse_args()
    with tempfile.TemporaryDirectory(prefix="c20-", dir=os.environ.get("ORACLE_SCRATCH")) as d:
        o.scratch = d
        try:
            sys.exit(search(o))
        except Exception:
            traceback.print_exc(file=sys.stdout)
            sys.exit(3)


def search(o):
    """-> exit status"""
    spec = importlib.util.spec_from_file_location("rspolib", o.lib)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    rs = Rust(o.oracle)
    # messages of panics that both sides raise
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    h = rs("pofile", None, ['msgid ""\nmsgstr "Language: es\\n"\n\nmsgctxt "menu"\nmsgid "a"\nmsgstr "b"\n\nmsgid "b"\nmsgid_plural "c"\nmsgstr[0] "d"\nmsgstr[1] "e"\n', 78])["ok"]
    for n, op in (("mo", "as_bytes_le"), ("mobe", "as_bytes_be")):
        open(f"{o.scratch}/{n}.mo", "wb").write(bytes(rs(op, h)["ok"]))
    if o.replay:
        bad = run(m, rs, json.load(open(o.replay))["case"], o.scratch)
        print("violation: " + bad if bad else "holds")
        return 1 if bad else 0
    r = random.Random(o.seed)
    end = time.time() + o.ms / 1000
    n, seen, samples = 0, set(), []
    while time.time() < end:
        prog = program(r, r.randrange(5, 40))
        if o.out:
            # for a program that ends the interpreter
            json.dump({"property": "C20", "case": prog, "seed": o.seed}, open(o.out, "w"))
        try:
            bad = run(m, rs, prog, o.scratch)
        except Ended:
            continue
        n += len(prog)
        seen.add(hash(json.dumps(prog)))
        if len(samples) < 1:
            samples.append(prog[6:9])
        if bad:
            prog = shrink(m, rs, prog, o.scratch, time.time() + 20)
            bad = run(m, rs, prog, o.scratch) or bad
            res = {"property": "C20", "violation": bad, "case": prog, "seed": o.seed}
            if o.out:
                json.dump(res, open(o.out, "w"))
            print(json.dumps(dict(res, evaluations=n, distinct_nontrivial=len(seen))))
            return 1
    print(json.dumps({"property": "C20", "evaluations": n, "distinct_nontrivial": len(seen), "samples": samples,
                      "rule": "random programs of up to 46 calls on both APIs, every result and the state of the objects compared"}))
    return 0


main()
