"""C15: the updater rewrites exactly the old string syntax."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import strs, strx, upd, vlib
from strs import S

c = vlib.Check(
    "C15",
    "random scripts over all commands and theory operators the tool reads (not sorted, any nesting, binders that shadow, "
    "quoted symbols, look-alike names, complete and incomplete escapes), random layout and comments; and well-sorted "
    "SMT-LIB 2.6 scripts of 15 families turned into the old syntax; monitors: the written script, read by our own reader, is "
    "command by command the specified rewriting of the input; the old form of a modern script comes back as the modern one (same "
    "denoted strings); updating again changes nothing; modern scripts come back as they are; the output goes to the right file; "
    "non-trivial: something was rewritten; distinct by script", min_nontrivial=200)
upd.setup()


def drop_logic(cmds, had):
    """Without the inserted logic."""
    if had:
        return cmds
    i = next((i for i, x in enumerate(cmds) if x[0] == "set-logic"), None)
    return cmds if i is None else cmds[:i] + cmds[i + 1:]


def compare(want, got):
    if len(want) != len(got):
        return "%d commands instead of %d" % (len(got), len(want))
    for w, g in zip(want, got):
        if upd.same(w) != upd.same(g):
            return "%s instead of %s" % (strs.show(g)[:300], strs.show(w)[:300])


BACK = {v: k for k, v in upd.HEADS.items()}
NAMED = {v: k for k, v in upd.NAMED.items()}


def old_lit(r, s):
    out = []
    for ch in strs.chars(s):
        n = ord(ch)
        if n < 256 and (n < 32 or n > 126 or ch == "\\" or r.random() < 0.1):
            h = "%02X" % n
            out.append("\\" + NAMED[h] if h in NAMED and r.random() < 0.5 else "\\x%02x" % n if r.random() < 0.5 else "\\x" + h)
        elif ch == "\\" or n >= 127:
            out.append("\\u{%x}" % n)
        else:
            out.append(ch)
    return S("".join(out))


def old(r, t):
    """A spelling of the term in the old syntax."""
    if type(t) is S:
        return old_lit(r, t)
    if t == "re.none" and type(t) is str:
        return "re.nostr" if r.random() < 0.8 else t
    if type(t) is not tuple or not t:
        return t
    if t[0] == "let":
        return ("let", tuple((n, old(r, v)) for n, v in t[1]), old(r, t[2]))
    if t[0] in ("forall", "exists"):
        return (t[0], t[1], old(r, t[2]))
    if type(t[0]) is tuple:
        if t[0][:2] == ("_", "re.loop") and r.random() < 0.8:
            return ("re.loop", old(r, t[1]), t[0][2], t[0][3])
        return (t[0],) + tuple(old(r, x) for x in t[1:])
    h = BACK.get(t[0], t[0]) if type(t[0]) is str and r.random() < 0.8 else t[0]
    return (h,) + tuple(old(r, x) for x in t[1:])


def old_command(r, x):
    if x[0] == "assert":
        return ("assert", old(r, x[1]))
    if x[0] == "define-fun":
        return x[:4] + (old(r, x[4]),)
    return x


def run(i):
    r = vlib.rng("C15", i)
    with vlib.Scratch() as d:
        if i % 3 == 0:
            fam = r.choice(list(strs.FAMILIES))
            modern, _, _ = strx.decorated(r, fam)
            cmds = [old_command(r, x) for x in modern]
            kind = "modern:" + fam
        else:
            g = upd.Wild(r, r.random() < 0.5)
            head, body = g.script()
            cmds = head + ([("set-logic", r.choice(["ALL", "QF_S"]))] if r.random() < 0.5 else []) + body
            kind = "wild"
        text = "\n".join(upd.show(x, r) for x in cmds) + "\n"
        ext = r.choice(["smt2", "smtlib"])
        other = os.path.join(d, "a.smt2")
        if ext == "smtlib" and r.random() < 0.3:
            with open(other, "w") as f:
                f.write("(check-sat)\n")
        stem = "a"
        if i % 25 == 7:
            text = vlib.broken(r, text)
            out, err, un = upd.convert(text, d, stem, ext)
            return "malformed", text, 1, None if err or un else "malformed script isn't reported", un
        out, err, un = upd.convert(text, d, stem, ext)
        if un or err:
            return kind, text, 0, err, un
        had = any(x[0] == "set-logic" for x in cmds)
        try:
            got = strs.read(out)
        except strs.BadText as e:
            return kind, text, 0, "unreadable output: %s" % e, None
        want = [upd.update_command(x) for x in cmds]
        changed = sum(upd.same(a) != upd.same(b) for a, b in zip(cmds, want))
        err = compare(want, drop_logic(got, had))
        if err:
            return kind, text, changed, err, None
        if kind != "wild":  # the modern script comes back, up to the spelling of literals
            back = drop_logic(got, had)
            for w, g in zip(modern, back):
                if strx.decoded(w) != strx.decoded(g):
                    return kind, text, changed, "old form of %s became %s" % (strs.show(w), strs.show(g)), None
        again, err, un = upd.convert(out, d, "b", r.choice(["smt2", "smtlib"]))
        if un or err:
            return kind, out, changed, err, un
        if again != out:
            return kind, out, changed, "updating an updated script changes it", None
        left = sorted(os.listdir(d))
        want_files = {"a.%s" % ext, "a_upt.%s" % ext} | ({"a.smt2"} if os.path.exists(other) else set())
        if {f for f in left if f.startswith("a")} != want_files:
            return kind, text, changed, "files %s" % left, None
        with open(os.path.join(d, "a." + ext), newline="") as f:
            if f.read() != text:
                return kind, text, changed, "the input file was changed", None
        return kind, text, changed, None, None


for kind, text, changed, err, un in vlib.fanout(run, range(vlib.scale(6000, 80000)), budget=vlib.scale(50, 600)):
    if un:
        c.unsure(un)
        continue
    c.seen(text, changed > 0, {"script": text[:400]})
    c.count("scripts:" + kind)
    c.count("commands_rewritten", changed)
    if err:
        c.violation("update", err, {"script": text, "error": err})
sys.exit(c.finish())
