"""C23: command-line options do what the help says."""
import re
import front
from absint import AbsInt, Agg, State, Unresolved, UNK, const

SCAN = ("getopt_long", "getopt", "getopt_long_only")
DOC = re.compile(r"^\s*-(\w)(?:[ =]<(\w+)>)?,\s*--([\w-]+)(?:[ =]?\[?=?<(\w+)>\]?)?\s*$")
# what the help promises for each option, by its long name: an observable of the whole program
MODES = {"demo": "run_demo", "benchmark": "run_benchmark"}


def run(r):
    prog = front.program()
    r.rule = ("the program is walked by constant propagation for the scan results of every option (alone, repeated and in pairs); the option table, the short "
              "option string, the help text and the effects have to agree")
    r.assume += ["getopt_long behaves as documented (POSIX / GNU)"]
    main = prog.fn("main")
    if main is None or not main.get("b"):
        r.bad("C23:main", "src/main.cpp", "there is no main function")
        return
    helps = helptext(prog, main)
    if not helps:
        r.undecided(front.loc(main), "no help text with options found among the literals reachable from main")
        return
    where, doc = helps
    r.count("documented_options", len(doc))
    try:
        base = outcomes(prog, main, [])
        args = scanargs(prog, main)
    except Unresolved as e:
        r.undecided(front.loc(main), "main: " + str(e))
        return
    if args is None:
        r.undecided(front.loc(main), "options are not scanned with getopt_long")
        return
    node, vs = args
    w = front.loc(main, node)
    short = vs[2] if len(vs) > 2 else None
    table = vs[3] if len(vs) > 3 else None
    if not isinstance(short, str) or table is not None and not isinstance(table, Agg):
        r.undecided(w, "option tables are not constants")
        return
    S = parse_short(short)
    L = parse_long(r, w, table)
    if L is None:
        return
    quiet = short.lstrip("+-").startswith(":")
    codes = {}
    for s, l, arg in doc:
        need = 1 if arg else 0
        r.check(S.get(s) == need, "C23:short:" + s, w, "-%s is accepted%s" % (s, " with a value" if arg else " without a value") + ("" if S.get(s) == need else " (short options are \"%s\")" % short))
        e = L.get(l)
        r.check(e is not None and e[0] == need, "C23:long:" + l, w, "--%s is accepted%s" % (l, " with a value" if arg else " without a value"))
        if e is not None:
            codes[l] = (ord(s), e[1])
    for l, (h, v, fl) in L.items():
        r.check(any(x[1] == l for x in doc), "C23:undocumented:" + l, w, "--%s of the option table is described in the help" % l)
    for s in S:
        r.check(any(x[0] == s for x in doc), "C23:undocumented:" + s, w, "-%s is described in the help" % s)
    # effects
    memo = {}

    def out(seq):
        seq = tuple(seq)
        if seq not in memo:
            memo[seq] = outcomes(prog, main, list(seq))
        return memo[seq]
    try:
        b = out([])
        r.check(all(ends_ok(o) and not modes(o) for o in b), "C23:none", front.loc(main), "without options the program ends with status 0 and runs neither mode")
        for s, l, arg in doc:
            cs = set(codes.get(l, (ord(s),)))
            for c in sorted(cs):
                how = "-" + s if c == ord(s) else "--" + l
                judge(r, front.loc(main), how, l, out([c]), doc, "alone")
                for s2, l2, arg2 in doc:
                    c2 = ord(s2)
                    if l2 == "help" and l != "help":
                        continue        # judged from the other side
                    if l in MODES and l2 in MODES and l != l2:
                        continue        # both modes asked for: the help does not say which wins
                    judge(r, front.loc(main), how, l, out([c, c2]), doc, "with -%s after it" % s2)
                    judge(r, front.loc(main), how, l, out([c2, c]), doc, "with -%s before it" % s2)
        for c, what in ((ord("?"), "an unknown option"),) + (((ord(":"), "an option whose value is missing"),) if quiet else ()):
            for seq in [[c]] + [[ord(s), c] for s, l, a in doc if l != "help"]:
                o = out(seq)
                r.check(all(failed(x) for x in o), "C23:reject:%s" % chr(c), w, "%s ends the program with an error status%s" % (what, "" if len(seq) == 1 else " after -%s" % chr(seq[0])))
                r.check(all(printed(x) for x in o), "C23:reject:say:%s" % chr(c), w, "%s is reported" % what)
                r.check(all(not modes(x) for x in o), "C23:reject:mode:%s" % chr(c), w, "%s runs no mode" % what)
    except Unresolved as e:
        r.undecided(front.loc(main), "main: " + str(e))
    r.count("option_sequences", len(memo))


# ---------------------------------------------------------------- observables
def outcomes(prog, main, seq):
    a = AbsInt(prog, seq, SCAN, set(MODES.values()))
    a.main = main
    r = []
    for k, v, s in a.call(main, [("argc",), ("argv",)], State()):
        if k == "return" and v is None:
            v = 0
        r.append((k, v, s))
    prog._scan = a.seen_args
    return r


def scanargs(prog, main):
    return prog._scan[0] if prog._scan else None


def ends_ok(o):
    return o[0] in ("return", "exit") and o[1] == 0


def failed(o):
    return o[0] == "throw" or o[0] in ("return", "exit") and isinstance(o[1], int) and o[1] % 256 != 0 or o[0] == "exit" and isinstance(o[1], tuple)


def modes(o):
    return [e[1] for e in o[2].eff if e[0] == "call" and e[1] in MODES.values()]


def printed(o):
    return any(e[0] == "print" for e in o[2].eff)


def verb(o):
    return o[2].m.get(("G", "verbosity"))


def judge(r, where, how, l, outs, doc, ctx):
    key = "C23:does:" + l
    if l == "help":
        def shows(o):
            t = "".join(x for e in o[2].eff if e[0] == "print" for x in e[1])
            return all("--" + d[1] in t for d in doc)
        r.check(all(shows(o) for o in outs), key, where, "%s prints the help text (%s)" % (how, ctx))
        r.check(all(ends_ok(o) and not modes(o) for o in outs), key + ":exit", where, "%s then ends the program with status 0 (%s)" % (how, ctx))
    elif l in MODES:
        f = MODES[l]
        r.check(all(modes(o) == [f] for o in outs), key, where, "%s runs %s once and nothing else (%s)" % (how, f, ctx))
        r.check(all(o[1] == ("call", f) for o in outs), key + ":status", where, "the status of %s is the program's status (%s)" % (f, ctx))
    elif l == "verbosity":
        r.check(all(verb(o) == ("number", ("g", "optarg")) for o in outs), key, where, "%s sets the verbosity to the value given (%s)" % (how, ctx))
        if ctx == "alone":
            r.check(all(ends_ok(o) and not modes(o) for o in outs), key + ":on", where, "%s changes nothing else" % how)


# ---------------------------------------------------------------- tables and text
def helptext(prog, main):
    """documented options: the string literal (reachable from main) that lists most of them"""
    best = None
    seen, todo = set(), [main]
    while todo:
        f = todo.pop()
        if f["id"] in seen or not f.get("b") or front.rel(f) != front.rel(main):
            continue
        seen.add(f["id"])
        lits = []
        for n in front.walk(f["b"]):
            if n["k"] == "str" and "--" in str(n["v"]):
                lits.append(str(n["v"]))
            if n["k"] == "call":
                todo += prog.targets(n)
        doc = []
        for line in "\n".join(lits).replace("\\n", "\n").split("\n"):
            m = DOC.match(line.strip())
            if m:
                doc.append((m.group(1), m.group(3), m.group(4) or m.group(2)))
        if doc and (best is None or len(doc) > len(best[1])):
            best = (front.loc(f), doc)
    return best


def parse_short(s):
    s = s.lstrip("+-")
    out, i = {}, 0
    while i < len(s):
        if s[i] != ":":
            n = 0
            while i + 1 < len(s) and s[i + 1] == ":":
                n += 1
                i += 1
            out[s[i - n]] = n
        i += 1
    return out


def parse_long(r, w, t):
    out = {}
    if t is None:
        return out
    done = False
    for e in t.items:
        if not isinstance(e, Agg) or len(e.items) < 4:
            r.undecided(w, "option table entry")
            return None
        name, has, flag, v = e.items[:4]
        if name == 0:
            done = True
            break
        if not isinstance(name, str) or not isinstance(has, int):
            r.undecided(w, "option table entry")
            return None
        r.check(flag == 0 and isinstance(v, int), "C23:flag:" + name, w, "--%s is reported to the scanning loop by its code" % name)
        out.setdefault(name, (has, v, flag))
    r.check(done, "C23:end", w, "the option table ends with an entry of zeros")
    return out
