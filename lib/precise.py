"""Programs whose exact inputs are known: a generator over a small language and a def-use/control reference for it."""
import random

I = "i64"
TYPES = {"T2": [("0", I), ("1", I)], "S1": [("a", I), ("b", I)], "S3": [("t", "T2"), ("u", "S1")], "N2": [("0", "T2"), ("1", I)]}
RUST = {I: "i64", "T2": "(i64, i64)", "S1": "S1", "S3": "S3", "N2": "((i64, i64), i64)"}
HELPERS = """
#[derive(Clone, Copy)] pub struct S1 { pub a: i64, pub b: i64 }
#[derive(Clone, Copy)] pub struct S3 { pub t: (i64, i64), pub u: S1 }
pub struct PTick(bool);
impl std::future::Future for PTick {
  type Output = ();
  fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
    if self.0 { return std::task::Poll::Ready(()); }
    self.0 = true; cx.waker().wake_by_ref(); std::task::Poll::Pending
  }
}
pub fn p_tick() -> PTick { PTick(false) }
pub async fn p_get(x: i64) -> i64 { p_tick().await; x.wrapping_add(1) }
pub fn p_block<F: std::future::Future>(f: F) -> F::Output {
  let mut f = std::pin::pin!(f);
  let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
  loop { if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x; } }
}
pub struct PH<'a, T>(pub &'a T, pub i64);
impl<'a, T> Drop for PH<'a, T> { fn drop(&mut self) { self.1 = 0; } }
pub fn p_add(x: i64, y: i64) -> i64 { x.wrapping_mul(3).wrapping_add(y) }
pub fn p_one(x: i64) -> i64 { x.wrapping_mul(7) ^ 5 }
pub fn p_mk_S1(x: i64, y: i64) -> S1 { S1 { a: x.wrapping_sub(y), b: y } }
pub fn p_mk_T2(x: i64, y: i64) -> (i64, i64) { (y, x ^ y) }
pub fn p_val_S1(s: S1) -> i64 { s.a.wrapping_mul(5) ^ s.b }
pub fn p_val_T2(s: (i64, i64)) -> i64 { s.0.wrapping_mul(5) ^ s.1 }
pub fn p_val_S3(s: S3) -> i64 { p_val_T2(s.t) ^ p_val_S1(s.u).wrapping_mul(11) }
pub fn p_val_N2(s: ((i64, i64), i64)) -> i64 { p_val_T2(s.0) ^ s.1.wrapping_mul(11) }
pub fn p_ref_i64(x: &i64) -> i64 { x.wrapping_add(1) }
pub fn p_ref_S1(s: &S1) -> i64 { p_val_S1(*s) }
pub fn p_ref_T2(s: &(i64, i64)) -> i64 { p_val_T2(*s) }
pub fn p_ref_S3(s: &S3) -> i64 { p_val_S3(*s) }
pub fn p_ref_N2(s: &((i64, i64), i64)) -> i64 { p_val_N2(*s) }
pub fn p_mut_i64(x: &mut i64, v: i64) { *x = x.wrapping_add(v); }
pub fn p_mut_S1(x: &mut S1, v: i64) { x.a = v; x.b ^= v; }
pub fn p_mut_T2(x: &mut (i64, i64), v: i64) { x.1 = v; x.0 ^= v; }
pub fn p_mut_S3(x: &mut S3, v: i64) { p_mut_T2(&mut x.t, v); x.u.a ^= v; }
pub fn p_mut_N2(x: &mut ((i64, i64), i64), v: i64) { p_mut_T2(&mut x.0, v); x.1 ^= v; }
"""

HELPERS += "".join("""
pub fn p_mix_%s(x: &mut %s, y: &%s, v: i64) { p_mut_%s(x, v ^ p_ref_%s(y)); }
pub fn p_pick_%s<'a, 'b>(x: &'a mut %s, y: &'b mut %s, v: i64) -> &'a mut %s { p_mut_%s(y, p_ref_%s(x) ^ v); if v > 1 { p_mut_%s(x, p_ref_%s(y)); } x }
""" % (t, r, r, t, t, t, r, r, r, t, t, t, t) for t, r in [("i64", "i64"), ("T2", "(i64, i64)"), ("S1", "S1"), ("S3", "S3"), ("N2", "((i64, i64), i64)")])

def leaves(ty):
    if ty == I: return [()]
    return [(f,) + r for f, t in TYPES[ty] for r in leaves(t)]
def sub(ty, path):
    for f in path: ty = dict(TYPES[ty])[f]
    return ty
def paths(ty):
    out = [((), ty)]
    if ty != I:
        for f, t in TYPES[ty]: out += [((f,) + p, q) for p, q in paths(t)]
    return out
def txt(p): return p[0] + "".join("." + f for f in p[1])

class Gen:
    def __init__(self, rng, name, size=14, early=False, off=(), asy=False):
        self.asy, self.asy_w = asy, 0
        self.off = off
        self.g, self.name, self.size, self.early = rng, name, size, early
        self.nv = self.nk = self.no = self.nl = 0
        self.vars = []          # (name, type)
        self.loop = 0
        self.kinds = {}
    def ch(self, xs): return xs[self.g.randrange(len(xs))]
    def p(self, x): return self.g.random() < x
    def place(self, ty=None, frozen=()):
        c = [((v, p), t) for v, vt in self.vars if v not in frozen for p, t in paths(vt) if ty is None or t == ty]
        return self.ch(c) if c else None
    def expr(self, d=0):
        r = self.g.random()
        if r < .42:
            x = self.place(I)
            if x: return ("v", x[0])
        if r < .52 and self.nk < 24: self.nk += 1; return ("k", self.nk - 1)
        if r < .58 or d > 2: return ("c", self.g.randrange(9))
        if r < .78: return ("op", self.ch(["+", "^", "|", "&", "<", "*"]), self.expr(d + 1), self.expr(d + 1))
        if r < .86: return ("call", "p_add", [self.expr(d + 1), self.expr(d + 1)])
        if r < .90: return ("call", "p_one", [self.expr(d + 1)])
        if r < .95:
            x = self.place(self.ch([t for t in TYPES]))
            if x: return ("val", x[0], x[1])
        x = self.place()
        if x: return ("ref", x[0], x[1])
        return ("c", 1)
    def cond(self): return ("op", self.ch(["<", ">", "=="]), self.expr(1), ("c", self.g.randrange(4)) if self.p(.6) else self.expr(1))
    def comp(self, ty, d=0):
        """a value of a composite type"""
        r = self.g.random()
        if r < .25:
            x = self.place(ty)
            if x: return ("copy", x[0], ty)
        if r < .45 and ty in ("S1", "T2"): return ("mk", ty, [self.expr(1), self.expr(1)])
        return ("agg", ty, [self.expr(1) if t == I else self.comp(t, d + 1) for _, t in TYPES[ty]])
    def value(self, ty): return self.expr() if ty == I else self.comp(ty)
    def fresh(self): self.nv += 1; return "x%d" % self.nv
    def stmts(self, n, depth):
        out, mark = [], len(self.vars)
        for _ in range(n): out += self.stmt(depth)
        del self.vars[mark:]
        return out
    def stmt(self, depth):
        k = self.g.choices(["let", "assign", "obs", "if", "while", "match", "mref", "sref", "mcall", "mix", "pick", "break", "ifexpr", "return", "block", "hold", "tick", "await"],
                           [5, 12, 7, 6 if depth < 3 else 0, 3 if depth < 2 else 0, 3 if depth < 3 else 0, 4, 3, 2, 2, 2, 2 if self.loop else 0, 2, 1 if self.early else 0, 1 if depth < 3 else 0, 3, 3 if self.asy else 0, self.asy_w])[0]
        if k in self.off: return []
        self.kinds[k] = self.kinds.get(k, 0) + 1
        if k == "let":
            ty = self.ch([I, I, I, "T2", "S1", "S3", "N2"])
            e = self.value(ty); v = self.fresh(); self.vars.append((v, ty))
            return [("let", v, ty, e)]
        if k == "obs": return self.obs()
        if k == "if":
            c = self.cond()
            return [("if", c, self.stmts(self.g.randrange(1, 5), depth + 1), self.stmts(self.g.randrange(0, 4), depth + 1))]
        if k == "match":
            e = ("op", self.ch(["+", "^", "&"]), self.expr(1), self.expr(1))   # not a bare place, which an arm could overwrite
            return [("match", e, [self.stmts(self.g.randrange(1, 4), depth + 1) for _ in range(self.g.randrange(2, 4))])]
        if k == "while":
            self.nl += 1
            c = self.cond(); n = "n%d" % self.nl
            self.loop += 1
            b = self.stmts(self.g.randrange(2, 6), depth + 1)
            self.loop -= 1
            return [("while", n, c, b)]
        if k == "tick": return [("tick",)]
        if k == "await":    # an awaited call: its argument is known to influence everything after it
            x = self.place(I)
            return [("await", x[0], self.expr(1))] if x else []
        if k == "hold":     # a value with a destructor that holds a shared reference: its drop changes nothing else
            x = self.place()
            if not x: return []
            e = self.expr(1); self.no += 1
            return [("hold", self.ch(["Box::new((%s, %s))", "PH(%s, %s)"]), self.fresh(), x[0], e, self.no)]
        if k == "break": return [("if", self.cond(), [("break",)], [])]
        if k == "return": return [("if", self.cond(), [("return", self.expr(1))], [])]
        if k == "block": return [("block", self.stmts(self.g.randrange(1, 5), depth + 1))]
        if k == "ifexpr":
            x = self.place(I)
            if not x: return []
            return [("ifexpr", x[0], self.cond(), self.expr(1), self.expr(1))]
        x = self.place() if not self.p(.5) else self.place(I)
        if not x: return []
        (v, p), ty = x
        if k == "assign": return [("assign", (v, p), ty, self.value(ty))]
        if k == "mcall":
            keep = self.vars
            self.vars = [y for y in keep if y[0] != v]
            e = self.expr(1)
            self.vars = keep
            return [("mcall", (v, p), ty, e)]
        if k in ("mix", "pick"):
            keep = self.vars
            self.vars = [y for y in keep if y[0] != v]
            y = self.place(ty)
            if not y: self.vars = keep; return []
            if k == "pick" or self.p(.5): self.vars = [z for z in self.vars if z[0] != y[0][0]]
            e = self.expr(1)
            self.vars = keep
            if k == "mix": return [("mix", (v, p), y[0], ty, e)]
        # a reference that is the only way to its target while it lives; the variable is not mentioned meanwhile
        keep = self.vars
        self.vars = [z for z in keep if z[0] != v and not (k == "pick" and z[0] == y[0][0])]
        n = self.fresh()
        other = y[0] if k == "pick" else None
        acts = []
        for _ in range(self.g.randrange(1, 4)):
            q, t = self.ch(paths(ty))
            if k != "sref": acts.append(("assign", q, t, self.value(t)) if self.p(.7) or t != I else ("add", q, self.expr(1)))
            y = self.ch([z for z in paths(ty) if z[1] == I])
            if self.p(.6): self.no += 1; acts.append(("obs", y[0], self.no))
        self.vars = keep
        if k == "pick": return [(k, n, (v, p), acts, other, ty, e)]
        return [(k, n, (v, p), acts)]
    def obs(self):
        x = self.place(I)
        if not x: return []
        self.no += 1
        return [("obs", self.no, ("v", x[0]))]
    def function(self):
        np = self.g.randrange(1, 4)
        self.params = []
        for i in range(np):
            v = "a%d" % (i + 1); self.params.append(v); self.vars.append((v, I))
        body = []
        for _ in range(self.size): body += self.stmt(0)
        for _ in range(6): body += self.obs()
        self.body = body
        self.ret = self.expr(1)
        return self

    # ---- rendering ----
    def rx(self, e, d=0):
        k = e[0]
        if k == "c": return str(e[1]) + "i64"
        if k == "k": return "k(%d)" % e[1]
        if k == "v": return txt(e[1])
        if k == "op":
            a, b = self.rx(e[2], 1), self.rx(e[3], 1)
            if e[1] in "+*": return "(%s %s %s)" % (a, e[1], b)
            if e[1] in ("<", ">", "=="): return "((%s %s %s) as i64)" % (a, e[1], b)
            return "(%s %s %s)" % (a, e[1], b)
        if k == "call": return "%s(%s)" % (e[1], ", ".join(self.rx(x) for x in e[2]))
        if k == "val": return "p_val_%s(%s)" % (e[2], txt(e[1]))
        if k == "ref": return "p_ref_%s(&%s)" % (e[2] if e[2] != I else "i64", txt(e[1]))
        if k == "copy": return txt(e[1])
        if k == "mk": return "p_mk_%s(%s)" % (e[1], ", ".join(self.rx(x) for x in e[2]))
        if k == "agg":
            if e[1] in ("S1", "S3"): return "%s { %s }" % (e[1], ", ".join("%s: %s" % (f, self.rx(x)) for (f, _), x in zip(TYPES[e[1]], e[2])))
            return "(%s)" % ", ".join(self.rx(x) for x in e[2])
    def rc(self, e): return "%s %s %s" % (self.rx(e[2], 1), e[1], self.rx(e[3], 1)) if e[1] in ("<", ">", "==") else self.rx(e)
    def rs(self, ss, ind):
        o, pad = "", "  " * ind
        for s in ss:
            k = s[0]
            if k == "let": o += "%slet mut %s: %s = %s;\n" % (pad, s[1], RUST[s[2]], self.rx(s[3]))
            elif k == "assign": o += "%s%s = %s;\n" % (pad, txt(s[1]), self.rx(s[3]))
            elif k == "obs": o += "%so(%d, %s);\n" % (pad, s[1], self.rx(s[2]))
            elif k == "if":
                o += "%sif %s {\n%s%s}" % (pad, self.rc(s[1]), self.rs(s[2], ind + 1), pad)
                o += (" else {\n%s%s}\n" % (self.rs(s[3], ind + 1), pad)) if s[3] else "\n"
            elif k == "match":
                n = len(s[2])
                o += "%smatch %s {\n" % (pad, self.rx(s[1]))
                for i, b in enumerate(s[2]): o += "%s  %s => {\n%s%s  }\n" % (pad, i if i + 1 < n else "_", self.rs(b, ind + 2), pad)
                o += pad + "}\n"
            elif k == "while":
                o += "%slet mut %s: i64 = 0;\n%swhile %s < 3 && %s {\n%s  %s += 1;\n%s%s}\n" % (pad, s[1], pad, s[1], self.rc(s[2]), pad, s[1], self.rs(s[3], ind + 1), pad)
            elif k == "break": o += pad + "break;\n"
            elif k == "return": o += "%sreturn %s;\n" % (pad, self.rx(s[1]))
            elif k == "block": o += "%s{\n%s%s}\n" % (pad, self.rs(s[1], ind + 1), pad)
            elif k == "tick": o += pad + "p_tick().await;\n"
            elif k == "await": o += "%s%s = p_get(%s).await;\n" % (pad, txt(s[1]), self.rx(s[2]))
            elif k == "hold": o += "%s{ let %s = %s; o(%d, %s.1); }\n" % (pad, s[2], s[1] % ("&" + txt(s[3]), self.rx(s[4])), s[5], s[2])
            elif k == "ifexpr": o += "%s%s = if %s { %s } else { %s };\n" % (pad, txt(s[1]), self.rc(s[2]), self.rx(s[3]), self.rx(s[4]))
            elif k == "mcall": o += "%sp_mut_%s(&mut %s, %s);\n" % (pad, s[2] if s[2] != I else "i64", txt(s[1]), self.rx(s[3]))
            elif k == "mix": o += "%sp_mix_%s(&mut %s, &%s, %s);\n" % (pad, s[3], txt(s[1]), txt(s[2]), self.rx(s[4]))
            elif k in ("mref", "sref", "pick"):
                if k == "pick": o += "%slet %s = p_pick_%s(&mut %s, &mut %s, %s);\n" % (pad, s[1], s[5], txt(s[2]), txt(s[4]), self.rx(s[6]))
                else: o += "%slet %s = &%s%s;\n" % (pad, s[1], "mut " if k == "mref" else "", txt(s[2]))
                for a in s[3]:
                    d = lambda q: "%s%s" % (s[1], "".join("." + f for f in q)) if q else "*" + s[1]
                    if a[0] == "assign": o += "%s%s = %s;\n" % (pad, d(a[1]), self.rx(a[3]))
                    elif a[0] == "add": o += "%s%s = %s ^ %s;\n" % (pad, d(a[1]), d(a[1]), self.rx(a[2]))
                    else: o += "%so(%d, %s);\n" % (pad, a[2], d(a[1]))
        return o
    def src(self):
        return "pub %sfn %s(%s) -> i64 {\n%s  %s\n}" % ("async " * self.asy, self.name, ", ".join("mut %s: i64" % p for p in self.params), self.rs(self.body, 1), self.rx(self.ret))

# ---- the reference: which inputs can reach a value along def-use and control-dependence chains -------------------------
class Ref:
    """rows: (variable, path) -> inputs; a value of unknown structure (the result of a call) is a row of the whole place"""
    def __init__(self, gen):
        self.gen, self.allowed, self.gpc, self.retd = gen, {}, frozenset(), frozenset()
        env = {(p, ()): frozenset([("a", i + 1)]) for i, p in enumerate(gen.params)}
        self.types = {p: I for p in gen.params}
        self.loops = []
        env = self.run(gen.body, env, frozenset())
        r = self.retd
        if env is not None: r = r | self.ex(gen.ret, env) | self.gpc
        self.allowed[900000] = r
    def read(self, env, pl):
        v, p = pl
        out = frozenset()
        for (w, q), d in env.items():
            if w == v and (q[:len(p)] == p or p[:len(q)] == q): out |= d
        return out
    def ex(self, e, env):
        k = e[0]
        if k == "c": return frozenset()
        if k == "k": return frozenset([("k", e[1])])
        if k in ("v", "val", "ref", "copy"): return self.read(env, e[1])
        if k == "op": return self.ex(e[2], env) | self.ex(e[3], env)
        return frozenset().union(*[self.ex(x, env) for x in e[2]])
    def put(self, env, pl, d):
        """strong update of one row"""
        env = dict(env); env[pl] = d
        return env
    def clear(self, env, pl):
        v, p = pl
        return {k: d for k, d in env.items() if not (k[0] == v and k[1][:len(p)] == p)}
    def store(self, env, pl, ty, e, pc, weak=(), src=None):
        """weak: the names of the place when the write goes through a reference; src: the state in which the value is read"""
        src = src or env
        pc = pc | self.gpc
        new, keep = {}, bool(weak)
        if ty == I: new[()] = self.ex(e, src)
        # one level of fields is told apart, except in copies of tuples; the value of a field is one value
        elif e[0] == "agg": new, keep = {(f,): self.ex(x, src) for (f, _), x in zip(TYPES[ty], e[2])}, True
        elif e[0] == "copy" and ty in ("S1", "S3"): new, keep = {(f,): self.read(src, (e[1][0], e[1][1] + (f,))) for f, _ in TYPES[ty]}, True
        else: new[()], keep = self.ex(e, src), bool(weak) or ty == "S1"
        old = {} if not weak else {k: d for k, d in env.items() if k[0] == pl[0] and k[1][:len(pl[1])] == pl[1]}
        if keep and pl in env: old[pl] = env[pl]     # fields assigned one by one leave what is known of the value as a whole
        env = self.clear(env, pl); env.update(old)
        for q, d in new.items():
            at = (pl[0], pl[1] + q)
            env[at] = env.get(at, frozenset()).union(d, pc, *[self.read(src, (n[0], n[1] + q)) for n in weak])
        return env
    def join(self, a, b):
        if a is None: return b
        if b is None: return a
        out = dict(a)
        for k, d in b.items(): out[k] = out.get(k, frozenset()) | d
        return out
    def see(self, oid, d): self.allowed[oid] = self.allowed.get(oid, frozenset()) | d
    def run(self, ss, env, pc):
        for s in ss:
            if env is None: return None
            k = s[0]
            if k == "let": env = self.store(env, (s[1], ()), s[2], s[3], pc)
            elif k == "assign": env = self.store(env, s[1], s[2], s[3], pc)
            elif k == "obs": self.see(s[1], self.ex(s[2], env) | pc | self.gpc)
            elif k == "if":
                c = pc | self.ex(s[1], env)
                env = self.join(self.run(s[2], env, c), self.run(s[3], env, c))
            elif k == "match":
                c = pc | self.ex(s[1], env)
                outs = [self.run(b, env, c) for b in s[2]]
                env = None
                for x in outs: env = self.join(env, x)
            elif k == "ifexpr":
                c = self.ex(s[2], env)
                env = self.put(self.clear(env, s[1]), s[1], c | self.ex(s[3], env) | self.ex(s[4], env) | pc | self.gpc)
            elif k == "block": env = self.run(s[1], env, pc)
            elif k == "tick": pass
            elif k == "await": env = self.store(env, s[1], I, ("call", "p_get", [s[2]]), pc)
            elif k == "hold": self.see(s[5], self.ex(s[4], env) | self.read(env, s[3]) | pc | self.gpc)
            elif k == "break":
                L = self.loops[-1]
                L["env"] = self.join(L["env"], env); L["pc"] |= pc
                return None
            elif k == "return":
                self.retd |= self.ex(s[1], env) | pc | self.gpc
                self.gpc |= pc
                for L in self.loops: L["pc"] |= pc
                return None
            elif k == "while":
                L = {"env": None, "pc": frozenset()}
                self.loops.append(L)
                cur = self.put(env, (s[1], ()), pc | self.gpc)
                while True:
                    # the counter is read by the condition and written under it
                    c = pc | L["pc"] | self.read(cur, (s[1], ())) | self.ex(s[2], cur)
                    b = self.put(cur, (s[1], ()), self.read(cur, (s[1], ())) | c | self.gpc)
                    nxt = self.join(cur, self.run(s[3], b, c))
                    if nxt == cur and c == pc | L["pc"] | self.read(cur, (s[1], ())) | self.ex(s[2], cur): break
                    cur = nxt
                self.loops.pop()
                env = self.join(cur, L["env"])
            elif k == "mcall":
                d = self.ex(s[3], env) | self.read(env, s[1]) | pc | self.gpc
                env = self.put(env, s[1], env.get(s[1], frozenset()) | d)
            elif k == "mix":
                d = self.ex(s[4], env) | self.read(env, s[1]) | self.read(env, s[2]) | pc | self.gpc
                env = self.put(env, s[1], env.get(s[1], frozenset()) | d)
            elif k in ("mref", "sref", "pick"):
                # what a reference points to is known under two names, of which its own one is never forgotten
                own, ptr = "*" + s[1], self.read(env, s[2]) | pc | self.gpc
                if k == "pick":
                    ptr |= self.read(env, (own, ())) | self.read(env, s[4]) | self.ex(s[6], env)
                    for x in (s[2], s[4], (own, ())): env = self.put(env, x, env.get(x, frozenset()) | ptr)
                for a in s[3]:
                    pl, me = (s[2][0], s[2][1] + a[1]), (own, a[1])
                    now = self.read(env, pl) | self.read(env, me) | ptr
                    if a[0] == "obs": self.see(a[2], now | pc | self.gpc)
                    elif a[0] == "assign":
                        new = self.store(env, pl, a[2], a[3], pc | ptr, (pl, me))
                        env = self.store(new, me, a[2], a[3], pc | ptr, (pl, me), env)
                    else:
                        d = now | self.ex(a[2], env) | pc | self.gpc
                        for x in (pl, me): env = self.put(env, x, env.get(x, frozenset()) | d)
        return env
