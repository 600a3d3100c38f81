"""C16: the updater completes a script with exactly the logic it needs, and terminates normally on every script."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import strs, strx, upd, vlib
from strs import S

c = vlib.Check(
    "C16",
    "random headers (set-option and set-info commands in any order and number, also nothing else), bodies with and without "
    "arithmetic (also in a single place: a let binding, a definition, a queried term, under a rewritten function, a quantifier), with "
    "set-logic nowhere, first or late; empty and comment-only files; deep and long scripts; monitors: a logic is inserted iff there is "
    "none, once, behind the leading options and in front of everything else, QF_SLIA iff arithmetic is used and QF_S otherwise, the "
    "rest unchanged; cvc5 reads the updated form of every sorted quantifier-free string script; exit code 0; non-trivial: a logic was "
    "inserted; distinct by script", min_nontrivial=200)
upd.setup()
HEAD = ("set-option", "set-info")


def spots(r):
    """A body whose only arithmetic (if any) is in one place."""
    e = r.choice([("+", "n", 1), ("-", "n"), ("-", "n", 2), ("*", 2, "n"), ("div", "n", 2), ("mod", "n", 2), ("abs", "n"), None, None])
    b = r.choice([("<", "n", 1), (">", "n", 1), ("<=", "n", 1), (">=", "n", 1), None, None])
    if e is None and b is None:
        e = "n"
    t = e if e is not None else ("ite", b, "n", 3)
    f = ("=", t, 5) if e is not None else b
    k = r.randrange(9)
    decl = [("declare-const", "s", "String"), ("declare-const", "n", "Int"), ("declare-const", "p", "Bool")]
    plain = ("assert", ("=", "s", S("a\\n")))
    if k == 0:
        body = [("assert", f)]
    elif k == 1:
        body = [("assert", ("let", (("z", t),), ("=", "z", "n")))]
    elif k == 2:
        body = [("assert", ("let", (("z", "n"),), ("let", (("w", S("x")),), ("or", "p", f))))]
    elif k == 3:
        body = [("define-fun", "d", (("q", "Int"),), "Bool", f), ("assert", ("d", "n"))]
    elif k == 4:
        body = [plain, ("check-sat",), ("get-value", ("s", t))]
    elif k == 5:
        body = [("assert", ("=", ("int.to.str", t), "s"))]
    elif k == 6:
        body = [("assert", ("=", ("str.at", "s", t), ("str.substr", "s", t, 1)))]
    elif k == 7:
        body = [("assert", ("forall", (("z", "Int"),), ("or", "p", f)))]
    else:
        body = [("assert", ("str.in.re", "s", ("re.loop", ("str.to.re", ("int.to.str", t)), 1, 2)))]
    if r.random() < 0.5:
        body.insert(r.randint(0, len(body) - (k == 4)), plain)
    return decl + body


def pure(r):
    """A sorted quantifier-free script over strings and integers only."""
    g = strs.Gen(r, r.choice(list(strs.FAMILIES)))
    sc = g.script()
    cmds = [("declare-const", n, s) for n, s in sc.decls] + [("assert", a) for a in sc.asserts]
    if r.random() < 0.4:
        cmds += [("declare-const", "n", "Int"), ("assert", r.choice([("<", ("+", "n", 1), 3), ("=", ("-", "n"), 3), (">=", "n", 0)]))]
    return cmds + [("check-sat",)]


def place_ok(out, i):
    """Behind every option of the leading set-... commands, in front of everything else."""
    lead = next((j for j, x in enumerate(out) if x[0] not in HEAD and j != i), len(out))
    if i > lead:
        return False
    return not any(x[0] == "set-option" for x in out[i + 1: lead])


def run(i):
    r = vlib.rng("C16", i)
    kind = r.choice(["spot", "spot", "wild", "pure", "head", "tiny", "deep"])
    g = upd.Wild(r, r.random() < 0.5)
    head, body = g.script()
    if kind == "spot":
        body = spots(r)
    elif kind == "pure":
        body = pure(r)
        head = [x for x in head if x[1] in (":produce-models", ":status")]
    elif kind == "head":
        body = []
        head = head * r.randint(1, 3)
    elif kind == "tiny":
        head, body = [], [r.choice([("check-sat",), ("exit",), ("assert", "true"), ("echo", S("")), ("assert", ("+", 1, 2))])][: r.randint(0, 1)]
    elif kind == "deep":
        t = "p"
        for _ in range(r.randint(50, 400)):
            t = r.choice([("not", t), ("and", "q", t), ("ite", t, "p", "q"), ("or", t, ("str.in.re", S("\\x41"), "re.nostr"))])
        body = [("declare-const", "p", "Bool"), ("declare-const", "q", "Bool"), ("assert", t)] + body
    logic = r.random() < 0.25 and kind != "pure"
    cmds = head + body
    if logic:
        k = r.choice([0, len(head), r.randint(0, len(cmds))])
        cmds = cmds[:k] + [("set-logic", r.choice(["ALL", "QF_S", "QF_SLIA", "QF_BV"]))] + cmds[k:]
    text = "\n".join(upd.show(x, r) for x in cmds) + r.choice(["\n", "", "\n; end", "\n\n"])
    with vlib.Scratch() as d:
        out, err, un = upd.convert(text, d, "a", r.choice(["smt2", "smtlib"]))
        if un or err:
            return kind, text, False, False, err, un
        try:
            got = strs.read(out)
        except strs.BadText as e:
            return kind, text, False, False, "unreadable output: %s" % e, None
        want = [upd.update_command(x) for x in cmds]
        inserted = not logic and bool(cmds)
        rest = got
        if inserted:
            where = [j for j, x in enumerate(got) if x[0] == "set-logic"]
            if len(where) != 1:
                return kind, text, True, False, "%d logics in the output" % len(where), None
            if not place_ok(got, where[0]):
                return kind, text, True, False, "the logic is inserted as command %d" % where[0], None
            expect = "QF_SLIA" if upd.any_arith(cmds) else "QF_S"
            if got[where[0]] != ("set-logic", expect):
                return kind, text, True, False, "inserted %s instead of %s" % (strs.show(got[where[0]]), expect), None
            rest = got[:where[0]] + got[where[0] + 1:]
        if [upd.same(x) for x in rest] != [upd.same(x) for x in want]:
            return kind, text, inserted, False, "the other commands are not the updated ones", None
        read = False
        if kind == "pure":
            p = os.path.join(d, "a_upt.smt2")
            with open(p, "w") as f:
                f.write(out)
            ref = os.path.join(d, "ref.smt2")
            with open(ref, "w") as f:
                f.write("\n".join(strs.show(x) for x in [("set-logic", "QF_SLIA")] + want))
            a = vlib.run_cli(["cvc5", "--parse-only", ref], d, 20)
            if a[0] == 0 and "rror" not in a[1] + a[2]:
                b = vlib.run_cli(["cvc5", "--parse-only", p], d, 20)
                if b[0] is not None:
                    read = True
                    if b[0] != 0 or "rror" in b[1] + b[2]:
                        return kind, text, inserted, read, "cvc5 does not read the updated script: %s" % (b[1] + b[2])[:300], None
        return kind, text, inserted, read, None, None


for kind, text, ins, read, err, un in vlib.fanout(run, range(vlib.scale(7000, 80000)), budget=vlib.scale(50, 600)):
    if un:
        c.unsure(un)
        continue
    c.seen(text, ins, {"script": text[:400]})
    c.count("scripts:" + kind)
    c.count("logic_inserted", int(ins))
    c.count("read_by_cvc5", int(read))
    if err:
        c.violation("logic", err, {"script": text, "error": err})
sys.exit(c.finish())
