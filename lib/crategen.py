"""Seeded multi-file crates whose function bodies are known by construction: for every body the exact ranges of the
whole item, of its block or expression, of its return type and of its parameters."""

class Text:
    """source text with recorded positions (0-based line, column in characters)"""
    def __init__(s): s.buf = []; s.line = 0; s.col = 0; s.bodies = []; s.points = []
    def pos(s): return (s.line, s.col)
    def w(s, t):
        s.buf.append(t)
        n = t.count("\n")
        if n: s.line += n; s.col = len(t) - t.rindex("\n") - 1
        else: s.col += len(t)
        return s
    def text(s): return "".join(s.buf)

class CrateGen:
    def __init__(self, rng, deep=2):
        self.g, self.n, self.deep = rng, 0, deep
    def fresh(self, p="f"): self.n += 1; return "%s%d" % (p, self.n)
    def p(self, x): return self.g.random() < x
    def ch(self, xs): return xs[self.g.randrange(len(xs))]
    def sep(self, t, ind):
        t.w(self.ch(["\n", "\n\n", "\n// fn fake(x: i32) -> i32 { x }\n", "\n/* pub fn fake() {\n } */\n", "\n  \n", "\n/// docs: fn fake() {}\n"[:0] + "\n"]) + "  " * ind)

    # ---- expressions, possibly containing closures
    def expr(self, t, vs, d):
        c = self.g.randrange(10)
        v = self.ch(vs) if vs else "1"
        if c < 3 or d <= 0: t.w(v)
        elif c < 5: t.w(v + " + "); self.expr(t, vs, d - 1)
        elif c == 5: t.w("(" + str(self.g.randrange(9)) + " * "); self.expr(t, vs, d - 1); t.w(")")
        elif c == 6: t.w('"é日 fn g() {}".len() as i32 - ' + v)
        elif c == 7: self.closure(t, vs, d - 1, call=True)
        elif c == 8: t.w("(vec!["); self.closure(t, vs, d - 1); t.w("])[0](" + v + ")")
        else: t.w("if " + v + " > 3 { "); self.expr(t, vs, d - 1); t.w(" } else { " + v + " }")
    def closure(self, t, vs, d, call=False, listed=True):
        b = {"kind": "closure", "start": t.pos(), "ret": None, "file": t.file}
        if call: t.w("(")
        if self.p(.3): t.w("move ")
        a = self.fresh("a")
        t.w("|"); s = t.pos()
        t.w(a + ": i32"); b["params"] = (s, t.pos())
        t.w("| ")
        if self.p(.3):
            t.w("-> "); s = t.pos(); t.w("i32"); b["ret"] = (s, t.pos()); t.w(" ")
            blk = True
        else: blk = self.p(.4)
        s = t.pos()
        if blk: t.w("{ let " + a + "x = " + a + "; "); self.expr(t, vs + [a, a + "x"], d); t.w(" }")
        elif self.p(.5): t.w("(" + a + ")")
        else: t.w(a + " + "); self.expr(t, vs + [a], 0)
        b["body"] = (s, t.pos())
        if call: t.w(")")  # rustc's span of a parenthesised closure includes the parentheses
        b["end"] = t.pos()
        if listed: t.bodies.append(b)
        if call: t.w("(" + self.ch(vs or ["2"]) + ")")

    # ---- functions
    def func(self, t, ind, quals=None, selfarg=None, name=None, depth=None):
        depth = self.deep if depth is None else depth
        b = {"kind": "fn", "ret": None, "params": None, "file": t.file}
        asy = False
        if quals is None:
            quals = self.ch(["", "", "pub ", "pub(crate) ", "pub const ", "unsafe ", "pub extern \"C\" ", "async "])
        asy = "async" in quals
        const = "const" in quals
        if self.p(.2): t.w(self.ch(["#[inline] ", "/// a doc comment { with braces }\n" + "  " * ind, "#[allow(dead_code)]\n" + "  " * ind]))
        b["start"] = t.pos()
        t.w(quals + "fn " + (name or self.fresh()))
        gen = not const and "extern" not in quals and not asy and self.p(.25)
        if gen: t.w("<T: Clone>" if self.p(.7) else "<T>")
        t.w("(" + self.ch(["", "", "\n" + "  " * (ind + 2)]))
        vs, first, last = [], None, None
        n = self.g.randrange(4)
        if selfarg: first = t.pos(); t.w(selfarg); last = t.pos()
        for i in range(n):
            if last is not None: t.w(", ")
            s = t.pos()
            a = self.fresh("p")
            k = 0 if const else self.g.randrange(4)
            if k < 2: t.w(a + ": i32"); vs.append(a)
            elif k == 2: t.w("mut " + a + ": i32"); vs.append(a)
            else: t.w("(" + a + ", _): (i32, &str)"); vs.append(a)
            first = first or s; last = t.pos()
        if gen:
            if last is not None: t.w(", ")
            s = t.pos(); t.w("_t: T"); first = first or s; last = t.pos()
        if first: b["params"] = (first, last)
        t.w(")")
        ret = self.p(.75)
        if ret: t.w(" -> "); s = t.pos(); t.w("i32"); b["ret"] = (s, t.pos())
        if gen and self.p(.3): t.w(" where T: Copy")
        t.w(" "); s = t.pos(); t.w("{")
        nl = self.p(.7)
        brk = "\n" + "  " * (ind + 1) if nl else " "
        for _ in range(self.g.randrange(3)):
            t.w(brk)
            v = self.fresh("v")
            k = self.g.randrange(6)
            if const or k < 3:
                t.w("let mut " + v + " = ");
                if const: t.w(self.ch(vs or ["1"]) + " + 1")
                else: self.expr(t, vs, 2)
                t.w(";"); vs = vs + [v]
            elif k == 3 and depth > 0:
                self.item(t, ind + 1, depth - 1)
            elif k == 4: t.w("let " + v + " = "); self.closure(t, list(vs), 1); t.w("; let " + v + "r = " + v + "(3);"); vs = vs + [v + "r"]
            else: t.w("const K" + v.upper() + ": i32 = { let z = 1; z + 1 };")
        t.w(brk)
        if ret:
            if const: t.w(self.ch(vs or ["4"]))
            else: self.expr(t, vs, 2)
        elif vs: t.w("let _ = " + self.ch(vs) + ";")
        t.w(("\n" + "  " * ind if nl else " ") + "}")
        b["body"] = (s, t.pos()); b["end"] = t.pos()
        b["async"] = asy
        if asy:
            t.bodies.append({"kind": "async block", "start": s, "end": t.pos(), "file": t.file, "body": (s, t.pos())})
        t.bodies.append(b)

    def item(self, t, ind, depth):
        k = self.g.randrange(12)
        if k < 4: self.func(t, ind, depth=depth)
        elif k == 4:
            s = self.fresh("S")
            t.w("struct %s(i32); impl %s { " % (s, s))
            for _ in range(self.g.randrange(1, 3)): self.func(t, ind + 1, self.ch(["", "pub "]), self.ch(["&self", "&mut self", "self", None]), depth=depth - 1); self.sep(t, ind)
            t.w("}")
        elif k == 5:
            r, s = self.fresh("Tr"), self.fresh("S")
            m = self.fresh("m")
            t.w("trait %s { fn req(&self) -> i32; " % r); self.func(t, ind + 1, "", "&self", depth=depth - 1); t.w(" }")
            self.sep(t, ind)
            t.w("#[derive(Clone, Debug, PartialEq)] struct %s { q: i32 } impl %s for %s { " % (s, r, s))
            b = {"kind": "fn", "start": t.pos(), "params": None, "ret": None, "file": t.file}
            t.w("fn req("); p = t.pos(); t.w("&self"); b["params"] = (p, t.pos()); t.w(") -> "); p = t.pos(); t.w("i32"); b["ret"] = (p, t.pos()); t.w(" "); p = t.pos(); t.w("{ self.q }")
            b["body"] = (p, t.pos()); b["end"] = t.pos(); t.bodies.append(b)
            t.w(" }")
        elif k == 6 and depth == self.deep:
            t.w("mod %s { " % self.fresh("m")); self.func(t, ind + 1, self.ch(["", "pub "]), depth=depth - 1); t.w(" }")
        elif k == 7: t.w("const %s: fn(i32) -> i32 = " % self.fresh("C")); self.closure(t, [], 0, listed=False); t.w(";")
        elif k == 8: t.w("static %s: [i32; { let a = 2; a }] = [1, { let b = 3; b }];" % self.fresh("ST"))
        elif k == 9:
            m = self.fresh("mm")
            t.w("macro_rules! %s { ($n:ident) => { pub fn $n(x: i32) -> i32 { let y = x; (|z: i32| z + y)(x) } } }" % m); self.sep(t, ind); t.w("%s!(%s);" % (m, self.fresh()))
        elif k == 10: t.w("#[cfg(any())] fn %s(x: i32) -> i32 { x }" % self.fresh())
        else: t.w("unsafe extern \"C\" { fn %s(x: i32) -> i32; }" % self.fresh("ext"))

    def file(self, fname, mods, nitems):
        t = Text(); t.file = fname; t.crlf = False
        if fname == "m.rs": t.w("#![allow(warnings)]\n")
        for m in mods: t.w(self.ch(["mod %s;\n", "pub mod %s;\n"]) % m)
        for _ in range(nitems):
            self.item(t, 0, self.deep); self.sep(t, 0)
        if self.p(.3): t.w("// end")
        return t

    def crate(self, nitems=8):
        """{path: Text}; the root is m.rs, modules of the same name in different folders included"""
        fs = {}
        fs["m.rs"] = self.file("m.rs", ["alpha", "beta", "gamma"], nitems)
        fs["alpha.rs"] = self.file("alpha.rs", ["m"], nitems)
        fs["alpha/m.rs"] = self.file("alpha/m.rs", [], nitems)
        fs["beta/mod.rs"] = self.file("beta/mod.rs", ["alpha"], nitems)
        fs["beta/alpha.rs"] = self.file("beta/alpha.rs", [], nitems)
        fs["gamma.rs"] = self.file("gamma.rs", [], 1)
        return fs
