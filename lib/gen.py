"""Random generator of safe, terminating Rust functions with knobs k(i) and observers o(id, x)."""
import random

I = ("i",)
def T(*ts): return ("t",) + tuple(ts)
def S(n): return ("s", n)
def R(m, t): return ("r", m, t)
def B(t): return ("b", t)
ARR = ("a",)
VEC = ("v",)
P1 = ("s", "pm::P1")
STRUCTS = {
    "S1": [("a", I), ("b", I)],
    "S2": [("s", S("S1")), ("c", I)],
    "S3": [("t", T(I, I)), ("u", S("S1"))],
    "G<i64>": [("v", I), ("n", I)],
    "G<S1>": [("v", S("S1")), ("n", I)],
    "R1": [("r", R(True, I)), ("n", I)],
    "R2": [("p", R(True, S("S1"))), ("q", R(True, I))],
    "Q1": [("r", R(False, I)), ("n", I)],
    "pm::P1": [("y", I)],
    "pm::Acc": [],
}
COPY = {"S1", "S3", "pm::P1", "Q1"}

def tstr(t):
    k = t[0]
    if k == "i": return "i64"
    if k == "t": return "(" + ", ".join(tstr(x) for x in t[1:]) + ",)" if len(t) == 2 else "(" + ", ".join(tstr(x) for x in t[1:]) + ")"
    if k == "s": return t[1]
    if k == "r": return ("&mut " if t[1] else "&") + tstr(t[2])
    if k == "b": return "Box<%s>" % tstr(t[1])
    if k == "a": return "[i64; 4]"
    if k == "v": return "Vec<i64>"
    if k == "o": return "Option<%s>" % tstr(t[1])
    if k == "e": return t[1]
    raise ValueError(t)

def is_copy(t):
    k = t[0]
    if k in "ia": return True
    if k == "t": return all(is_copy(x) for x in t[1:])
    if k == "s": return t[1] in COPY
    if k == "r": return not t[1]
    if k == "o": return is_copy(t[1])
    return False

def has_ref(t):
    k = t[0]
    if k == "r": return True
    if k == "t": return any(has_ref(x) for x in t[1:])
    if k == "s": return t[1] in ("R1", "R2", "Q1")
    if k in "bo": return has_ref(t[1])
    return False

class Var:
    __slots__ = ("name", "ty", "mut", "depth", "dead", "noassign")
    def __init__(s, name, ty, mut, depth): s.name, s.ty, s.mut, s.depth, s.dead, s.noassign = name, ty, mut, depth, False, False

class Place:
    __slots__ = ("text", "path", "ty", "w")
    def __init__(s, text, path, ty, w): s.text, s.path, s.ty, s.w = text, path, ty, w

def overlap(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]

PROFILES = {
    # weights of statement kinds
    "data":  dict(let=10, assign=14, opassign=5, obs=5, move=4, destr=4, block=1, enum=3, arr=5, vec=2, boxs=3, swapstmt=2, privs=2, ifs=2, copycomp=5, update=3, cast=1),
    "ctl":   dict(let=5, assign=12, opassign=4, obs=6, ifs=12, match=6, whiles=4, fors=5, loops=4, brk=4, block=1, iflet=3, letelse=1, shortc=3, boolvar=4, matchbool=4, labelled=2, loopval=3),
    "ref":   dict(cursor=5, holder=7, let=5, assign=14, opassign=4, obs=6, bmut=12, bshr=6, bcond=6, reassign=5, reborrow=7, nested=4, refstruct=7, reftup=4, refarr=3, refopt=4, iflet=2, ifs=4, block=5, fors=1, whiles=1, boxs=3, slices=4, refpat=4, itermut=3, closm=2, enumref=3, sharedcopy=3),
    "call":  dict(dynbox=5, cursor=1, holder=5, let=5, assign=8, obs=6, callr=14, callm=14, method=8, retref=10, refstruct=4, structcall=5, clos=5, closm=5, closarg=4, dyncall=4, trait=5, fnptr=3, generic=5, bmut=4, block=2, ifs=4, gencall=12, swapstmt=2, vec=2, dropw=2, opover=2),
    "mix":   dict(cursor=2, dynbox=1, holder=4, let=6, assign=12, opassign=3, obs=6, move=2, destr=2, block=3, enum=2, arr=3, vec=2, boxs=2, swapstmt=1, privs=1, ifs=6, copycomp=2, update=1, match=2, whiles=2, fors=2, loops=1, brk=2, iflet=2, letelse=1, shortc=1, boolvar=2, matchbool=2,
                  bmut=4, bshr=2, bcond=3, reassign=2, reborrow=3, nested=2, refstruct=3, reftup=2, refarr=1, refopt=2, slices=2, refpat=2, itermut=1, closm=2, enumref=1, callr=4, callm=4, method=3, retref=4, structcall=2, clos=2, closarg=2, dyncall=1, trait=2, fnptr=1, generic=2, gencall=4, labelled=1, loopval=1, dropw=1, opover=1, sharedcopy=1),
    "div":   dict(let=5, assign=12, opassign=4, obs=6, ifs=10, match=5, whiles=3, fors=3, loops=3, brk=3, block=1, iflet=2, shortc=2, boolvar=3, matchbool=3, labelled=1, loopval=2, callm=2, bmut=2, diverge=6),
    "early": dict(let=5, assign=12, opassign=4, obs=7, ifs=8, match=3, whiles=3, fors=3, loops=3, brk=4, block=1, iflet=2, boolvar=2, matchbool=2, earlyret=6, loopval=1, callm=2, bmut=2),
}

class Gen:
    def __init__(self, rng, profile, name, nst=14, early=False, maxk=10, feats=(), gencallees=(), recurse_safe=False):
        self.g, self.prof, self.name = rng, PROFILES[profile], name
        self.nst, self.early, self.maxk = nst, early, maxk
        self.nk = self.nobs = self.nv = self.nlab = 0
        self.vars, self.locks, self.depth, self.lines, self.ind = [], [], 0, [], 1
        self.loopdepth = 0
        self.infn = False       # inside a callee/closure: no knobs, no observers
        self.budget = nst
        self.args = []
        self.fuel = 0
        self.exits = 0
        self.gencallees = gencallees
        self.noexit = False
        self.indiv = False      # in code from which the function does not return
        self.ndiv = 0
        self.never = profile == "div" and rng.random() < .4
        self.post = {}
        self.kinds_used = {}
    # ---- utilities
    def emit(self, s): self.lines.append("  " * self.ind + s)
    def fresh(self, p="v"):
        self.nv += 1
        return "%s%d" % (p, self.nv)
    def ch(self, xs): return xs[self.g.randrange(len(xs))]
    def p(self, x): return self.g.random() < x
    def knob(self):
        if self.infn or self.nk >= self.maxk: return self.const()
        self.nk += 1
        return "k(%d)" % (self.nk - 1)
    def const(self):
        c = self.g.choice([0, 1, 2, 3, 5, 7, -1, -4, 10])
        return "%di64" % c if c >= 0 else "(%di64)" % c
    def decl(self, name, ty, mut):
        v = Var(name, ty, mut, self.depth)
        self.vars = [x for x in self.vars if x.name != name] + [v]
        return v
    def can_read(self, path): return not any(l[1] and overlap(l[0], path) for l in self.locks)
    def can_write(self, path): return not any(overlap(l[0], path) for l in self.locks)
    def lock(self, path, mut, depth=None): self.locks.append((path, mut, self.depth if depth is None else depth))
    # ---- places
    def sub(self, pl, out, d=0):
        out.append(pl)
        if d > 4: return
        t, k = pl.ty, pl.ty[0]
        if k == "t":
            for i, x in enumerate(t[1:]):
                self.sub(Place("%s.%d" % (pl.text, i), pl.path + (i,), x, pl.w), out, d + 1)
        elif k == "s":
            for f, x in STRUCTS[t[1]]:
                self.sub(Place("%s.%s" % (pl.text, f), pl.path + (f,), x, pl.w), out, d + 1)
        elif k == "r":
            self.sub(Place("(*%s)" % pl.text, pl.path + ("*",), t[2], t[1] and pl.w is not None), out, d + 1)
        elif k == "b":
            self.sub(Place("(*%s)" % pl.text, pl.path + ("*",), t[1], pl.w), out, d + 1)
        elif k == "a":
            out.append(Place(pl.text + "[IDX]", pl.path + ("i",), I, pl.w))
        elif k == "v":
            out.append(Place(pl.text + "[VIX%s]" % pl.text, pl.path + ("i",), I, pl.w))
    def places(self):
        out = []
        for v in self.vars:
            if v.dead: continue
            self.sub(Place(v.name, (v.name,), v.ty, v.mut), out)
        # a place below a shared reference is never writable
        res = []
        for pl in out:
            res.append(pl)
        return res
    def fixw(self, pl):
        return pl
    def rd(self, ty, shared_ok=True):
        return [p for p in self.places() if p.ty == ty and self.can_read(p.path)]
    def wr(self, ty):
        ps = []
        for v in self.vars:
            if v.dead: continue
            self._w(Place(v.name, (v.name,), v.ty, v.mut), ps, v)
        return [p for p in ps if p.ty == ty and self.can_write(p.path)]
    def _w(self, pl, out, v, d=0):
        """writable places only"""
        t, k = pl.ty, pl.ty[0]
        if pl.w and not (d == 0 and v.noassign): out.append(pl)
        if d > 4: return
        if k == "t":
            for i, x in enumerate(t[1:]): self._w(Place("%s.%d" % (pl.text, i), pl.path + (i,), x, pl.w), out, v, d + 1)
        elif k == "s":
            for f, x in STRUCTS[t[1]]: self._w(Place("%s.%s" % (pl.text, f), pl.path + (f,), x, pl.w), out, v, d + 1)
        elif k == "r":
            if t[1]: self._w(Place("(*%s)" % pl.text, pl.path + ("*",), t[2], True), out, v, d + 1)
        elif k == "b":
            self._w(Place("(*%s)" % pl.text, pl.path + ("*",), t[1], pl.w), out, v, d + 1)
        elif k == "a" and pl.w: out.append(Place(pl.text + "[IDX]", pl.path + ("i",), I, pl.w))
        elif k == "v" and pl.w: out.append(Place(pl.text + "[VIX%s]" % pl.text, pl.path + ("i",), I, pl.w))
    def inst(self, pl):
        """text of a place with its index filled in"""
        s = pl.text
        if "[IDX]" in s:
            if self.p(0.5): ix = str(self.g.randrange(4))
            else:
                ix = "(%s & 3) as usize" % self.simple()
            s = s.replace("[IDX]", "[%s]" % ix)
        if "[VIX" in s:
            a = s.index("[VIX"); b = s.rindex("]")
            base = s[a + 4:b]
            ix = "0"
            if self.p(0.5):
                ix = self.fresh("ix"); self.emit("let %s = (%s & 0xff) as usize %% %s.len();" % (ix, self.simple(), base))
            s = s[:a] + "[" + ix + "]"
        return s
    def simple(self):
        """scalar without calls of place-locking kind: constant, knob or plain local leaf"""
        c = [p for p in self.rd(I) if "[" not in p.text]
        r = self.g.random()
        if r < 0.25 or not c: return self.knob() if self.p(0.6) else self.const()
        return self.ch(c).text
    def leaf(self):
        c = self.rd(I)
        r = self.g.random()
        if r < 0.24 or not c: return self.knob()
        if r < 0.30: return self.const()
        return self.inst(self.ch(c))
    # ---- expressions
    def e(self, d=2):
        r = self.g.random()
        if d <= 0 or r < 0.45: return self.leaf()
        if r < 0.72:
            m = self.ch(["wrapping_add", "wrapping_sub", "wrapping_mul"])
            a, b = self.e(d - 1), self.e(d - 1)
            a = "(%s)" % a
            return "%s.%s(%s)" % (a, m, b)
        if r < 0.80: return "(%s %s %s)" % (self.e(d - 1), self.ch(["^", "&", "|"]), self.e(d - 1))
        if r < 0.85: return "((%s) as i64)" % self.cond(d - 1)
        if r < 0.90: return "(if %s { %s } else { %s })" % (self.cond(d - 1), self.e(d - 1), self.e(d - 1))
        if r < 0.94: return "h_add(%s, %s)" % (self.e(d - 1), self.e(d - 1))
        if r < 0.97: return "(-((%s) & 0xffff))" % self.e(d - 1)
        return "{ let q = %s; q }" % self.e(d - 1)
    def cond(self, d=1):
        r = self.g.random()
        bs = [v for v in self.vars if not v.dead and v.ty == ("B",) and self.can_read((v.name,))]
        if bs and r < 0.3: return ("!" if self.p(0.3) else "") + self.ch(bs).name
        a = self.e(d - 1) if d > 0 else self.leaf()
        if a.startswith("{") or a.startswith("-"): a = "(%s)" % a
        if r < 0.6: return "(%s & 1) == 0" % a
        if r < 0.85: return "(%s) > %s" % (a, self.const())
        if r < 0.95: return "(%s) < (%s)" % (a, self.leaf())
        return "(%s) == %s" % (a, self.const())
    def val(self, ty, d=1):
        """an expression of a (reference-free) type"""
        k = ty[0]
        if k == "i": return self.e(d)
        cs = [p for p in self.rd(ty)] if is_copy(ty) else []
        if cs and self.p(0.35): return self.inst(self.ch(cs))
        if k == "t": return "(" + ", ".join(self.val(x, d) for x in ty[1:]) + ("," if len(ty) == 2 else "") + ")"
        if k == "a":
            return "[%s]" % ", ".join(self.e(0) for _ in range(4)) if self.p(0.7) else "[%s; 4]" % self.leaf()
        if k == "v": return "vec![%s]" % ", ".join(self.e(0) for _ in range(self.g.randrange(1, 4)))
        if k == "b": return "Box::new(%s)" % self.val(ty[1], d)
        if k == "o": return "h_opt(%s, %s)" % (self.e(0), self.e(d)) if self.p(0.3) else "Some(%s)" % self.val(ty[1], d)
        n = ty[1]
        if n == "S1" and self.p(0.2): return "h_mk(%s, %s)" % (self.e(0), self.e(0))
        if n == "S1" and cs and self.p(0.15): return "S1 { %s: %s, ..%s }" % (self.ch("ab"), self.e(0), self.ch(cs).text)
        if n == "pm::P1": return "pm::P1::new(%s, %s)" % (self.e(0), self.e(0))
        if n == "pm::Acc": return "pm::Acc::new(%s)" % self.e(d)
        fs = [(f, self.val(x, d)) for f, x in STRUCTS[n]]
        if self.p(0.3): fs.reverse()
        return n.replace("G<i64>", "G").replace("G<S1>", "G") + " { " + ", ".join("%s: %s" % f for f in fs) + " }"
    def rty(self):
        return self.ch([I, I, T(I, I), S("S1"), S("S1"), S("S2"), S("S3"), T(I, S("S1")), T(T(I, I), I), ARR, S("G<i64>"), S("G<S1>"), B(I), B(S("S1")), P1, T(I, ARR)])
    def newvar(self, ty, mut=True, init=None):
        n = self.fresh()
        self.emit("let %s%s: %s = %s;" % ("mut " if mut else "", n, tstr(ty), init if init is not None else self.val(ty)))
        return self.decl(n, ty, mut)
    def wplace(self, ty):
        c = self.wr(ty)
        if not c or self.p(0.08):
            v = self.newvar(ty)
            return Place(v.name, (v.name,), ty, True)
        return self.ch(c)
    def rplace(self, ty):
        c = self.rd(ty)
        if not c:
            v = self.newvar(ty)
            return Place(v.name, (v.name,), ty, True)
        return self.ch(c)
    # ---- blocks
    def block(self, n, header=None, tail=None, loop=False):
        if header: self.emit(header)
        sv = list(self.vars); dead = {v: v.dead for v in sv}
        self.depth += 1; self.ind += 1
        if loop: self.loopdepth += 1
        for _ in range(n): self.stmt()
        if tail: tail()
        if loop: self.loopdepth -= 1
        self.locks = [l for l in self.locks if l[2] < self.depth]
        self.depth -= 1; self.ind -= 1
        self.vars = sv
        self.emit("}")
    def small(self): return self.g.choice([1, 1, 2, 2, 3])
    def obs(self, text):
        if self.infn: return
        self.nobs += 1
        self.emit("o(%d, %s);" % (self.nobs + (500000 if self.indiv else 0), text))
    # ---- statements
    def stmt(self):
        if self.budget <= 0: 
            return self.st_assign()
        self.budget -= 1
        ks = list(self.prof.items())
        tot = sum(w for _, w in ks)
        x = self.g.random() * tot
        for kname, w in ks:
            x -= w
            if x <= 0: break
        if self.depth > 4 and kname in ("ifs", "match", "whiles", "fors", "loops", "block", "labelled", "loopval", "matchbool"): kname = "assign"
        if self.infn and (kname in ("obs", "earlyret", "labelled") or kname == "gencall" and not self.gencallees): kname = "assign"
        self.kinds_used[kname] = self.kinds_used.get(kname, 0) + 1
        getattr(self, "st_" + kname)()
    def st_let(self):
        ty = self.rty()
        v = self.newvar(ty, mut=self.p(0.8))
    def st_assign(self):
        ty = I if self.p(0.72) else self.ch([S("S1"), T(I, I), ARR, P1, S("S3")])
        c = self.wr(ty)
        if not c: c = self.wr(I)
        if not c: return self.st_let()
        p = self.ch(c)
        val = self.val(p.ty, 2)
        # the value is computed first: an index expression may not overlap what it reads
        if "[" in p.text: val0 = self.fresh("t"); self.emit("let %s = %s;" % (val0, val)); val = val0
        self.emit("%s = %s;" % (self.inst(p), val))
    def st_opassign(self):
        c = self.wr(I)
        if not c: return self.st_let()
        p = self.ch(c); t = self.fresh("t")
        self.emit("let %s = %s;" % (t, self.e(1)))
        self.emit("%s %s= %s;" % (self.inst(p), self.ch(["^", "|", "&"]), t))
    def st_obs(self):
        c = self.rd(I)
        if c: self.obs(self.inst(self.ch(c)))
    def st_copycomp(self):
        c = [p for t in (S("S1"), T(I, I), ARR, S("S3"), P1) for p in self.rd(t)]
        if not c: return self.st_let()
        p = self.ch(c)
        self.newvar(p.ty, True, p.text)
    def st_update(self):
        c = self.wr(S("S1"))
        if not c: return self.st_let()
        p = self.ch(c)
        src = self.ch(self.rd(S("S1"))).text
        t = self.fresh("t")
        self.emit("let %s = S1 { %s: %s, ..%s };" % (t, self.ch("ab"), self.e(1), src))
        self.emit("%s = %s;" % (p.text, t))
    def st_cast(self):
        n = self.fresh()
        self.emit("let mut %s: i64 = (%s) as i32 as u8 as i64;" % (n, self.e(1)))
        self.decl(n, I, True)
    def st_move(self):
        c = [v for v in self.vars if not v.dead and v.depth == self.depth and v.ty[0] in "sb" and not is_copy(v.ty) and not has_ref(v.ty) and self.can_write((v.name,))]
        if not c: return self.st_let()
        v = self.ch(c)
        self.newvar(v.ty, True, v.name)
        v.dead = True
    def st_destr(self):
        k = self.g.randrange(5)
        a, b = self.fresh(), self.fresh()
        if k == 0:
            self.emit("let (mut %s, %s) = (%s, %s);" % (a, b, self.e(1), self.e(1))); self.decl(a, I, True); self.decl(b, I, False)
        elif k == 1:
            self.emit("let S1 { a: %s, b: mut %s } = %s;" % (a, b, self.rplace(S("S1")).text)); self.decl(a, I, False); self.decl(b, I, True)
        elif k == 2:
            self.emit("let [%s, _, .., %s] = %s;" % (a, b, self.rplace(ARR).text)); self.decl(a, I, False); self.decl(b, I, False)
        elif k == 3:
            c1, c2 = self.wr(I), self.wr(I)
            c1 = [p for p in c1 if "[" not in p.text]
            if len(c1) < 2: return
            p, q = self.ch(c1), self.ch(c1)
            self.emit("(%s, %s) = (%s, %s);" % (p.text, q.text, self.e(1), self.e(1)))
        else:
            self.emit("let (%s, S1 { a: %s, .. }) = (%s, %s);" % (a, b, self.e(1), self.val(S("S1")))); self.decl(a, I, False); self.decl(b, I, False)
    def st_block(self): self.block(self.small(), "{")
    def st_enum(self):
        n = self.fresh("en")
        self.emit("let mut %s = %s;" % (n, self.ch(["h_e1(%s, %s)" % (self.e(0), self.e(1)), "E1::A(%s)" % self.e(1), "E1::B { x: %s, y: %s }" % (self.e(1), self.e(0)),
                  "if %s { E1::A(%s) } else { E1::B { x: %s, y: %s } }" % (self.cond(), self.e(0), self.e(0), self.e(0))])))
        if self.p(0.5): self.emit("h_e1m(&mut %s, %s);" % (n, self.e(0)))
        if self.p(0.4): self.emit("if let E1::A(q) = &mut %s { *q = %s; }" % (n, self.e(0)))
        if self.p(0.3): self.emit("%s = E1::A(%s);" % (n, self.e(0)))
        r = self.fresh()
        self.emit("let mut %s: i64 = match %s { E1::A(q) => q, E1::B { x, y } => x.wrapping_sub(y), E1::C => %s };" % (r, n, self.e(0)))
        self.decl(r, I, True)
    def st_arr(self):
        c = self.wr(ARR)
        if not c:
            self.newvar(ARR); return
        p = self.ch(c); t = self.fresh("t")
        self.emit("let %s = %s;" % (t, self.e(1)))
        self.emit("%s[%s] = %s;" % (p.text, "(%s & 3) as usize" % self.simple() if self.p(0.6) else self.g.randrange(4), t))
    def st_vec(self):
        c = self.wr(VEC)
        if not c or self.p(0.2):
            self.newvar(VEC); return
        p = self.ch(c); k = self.g.randrange(6); t = self.fresh("t")
        self.emit("let %s = %s;" % (t, self.e(1)))
        if k == 0: self.emit("%s.push(%s);" % (p.text, t))
        elif k == 1: self.emit("for q in %s.iter_mut() { *q ^= %s; }" % (p.text, t))
        elif k == 2:
            self.emit("if let Some(q) = %s.get_mut((%s & 1) as usize) { *q = %s; }" % (p.text, self.simple(), t))
        elif k == 3:
            n = self.fresh(); self.emit("let mut %s: i64 = %s.iter().fold(0i64, |a, q| a.wrapping_add(*q));" % (n, p.text)); self.decl(n, I, True)
        elif k == 4:
            n = self.fresh(); self.emit("let mut %s: i64 = %s.len() as i64;" % (n, p.text)); self.decl(n, I, True)
        else:
            n = self.fresh(); self.emit("let mut %s: i64 = *%s.first().unwrap_or(&%s);" % (n, p.text, t)); self.decl(n, I, True)
    def st_boxs(self):
        c = self.wr(B(S("S1"))) + self.wr(B(I))
        if not c or self.p(0.3):
            self.newvar(self.ch([B(I), B(S("S1")), B(T(I, I))])); return
        p = self.ch(c)
        if self.p(0.5): self.emit("%s = Box::new(%s);" % (p.text, self.val(p.ty[1])))
        elif p.ty == B(I): self.emit("*%s = %s;" % (p.text, self.e(1)) if not self.p(0.4) else "**(&mut %s) = %s;" % (p.text, self.e(0)))
        else: self.emit("%s.%s = %s;" % (p.text, self.ch("ab"), self.e(1)))
    def st_swapstmt(self):
        ty = self.ch([I, I, S("S1"), T(I, I)])
        c = [p for p in self.wr(ty) if "[" not in p.text]
        if len(c) < 2: return self.st_let()
        p, q = self.ch(c), self.ch(c)
        if overlap(p.path, q.path): return
        if self.p(0.6): self.emit("std::mem::swap(&mut %s, &mut %s);" % (p.text, q.text))
        else:
            v = self.val(ty) if ty != I else self.e(1)
            n = self.fresh(); self.emit("let mut %s = std::mem::replace(&mut %s, %s);" % (n, p.text, v)) if not self.mentions(v, p) else self.emit("let mut %s = %s;" % (n, p.text)); self.decl(n, ty, True)
    def mentions(self, text, p): return p.path[0] in text
    def st_privs(self):
        c = self.wr(P1)
        if not c: self.newvar(P1); return
        p = self.ch(c); k = self.g.randrange(4)
        if k == 0: self.emit("let t0 = %s; %s.set(t0);" % (self.e(1), p.text))
        elif k == 1: self.emit("%s.rot();" % p.text)
        elif k == 2:
            n = self.fresh(); self.emit("let mut %s: i64 = %s.x();" % (n, p.text)); self.decl(n, I, True)
        else: self.emit("%s.y = %s;" % (p.text, self.e(1)))
    def st_ifs(self):
        c = self.cond(2)
        r = self.g.random()
        self.block_nc(self.small(), "if %s {" % c)
        if r < 0.6:
            self.lines[-1] = self.lines[-1].rstrip() + " else {"
            self.block_nc(self.small(), None)
        elif r < 0.75:
            self.lines[-1] = self.lines[-1].rstrip() + " else if %s {" % self.cond_pure()
            self.block_nc(self.small(), None)
            self.lines[-1] = self.lines[-1].rstrip() + " else {"
            self.block_nc(self.small(), None)
    def cond_pure(self):
        return "(%s & 1) == 1" % self.simple()
    def block_nc(self, n, header):
        # moves inside a conditional block only concern variables declared in it (st_move checks depth)
        self.block(n, header)
    def st_boolvar(self):
        n = self.fresh("b"); self.emit("let %s = %s;" % (n, self.cond(2)))
        v = Var(n, ("B",), False, self.depth); self.vars.append(v)
    def st_matchbool(self):
        bs = [v for v in self.vars if not v.dead and v.ty == ("B",)]
        if not bs: return self.st_boolvar()
        b = self.ch(bs)
        self.emit("match %s {" % b.name); self.ind += 1
        self.block(self.small(), "true => {")
        if self.p(0.5): self.block(self.small(), "false => {")
        else: self.emit("false => {}")
        self.ind -= 1; self.emit("}")
    def st_match(self):
        k = self.g.randrange(3)
        if k == 0:
            self.emit("match %s & 3 {" % self.par(self.e(1))); self.ind += 1
            self.block(self.small(), "0 => {")
            self.block(self.small(), "1 | 2 => {")
            if self.p(0.4):
                n = self.fresh(); self.emit("%s if %s > 2 => { " % (n, n)); self.ind += 1; self.st_assign(); self.ind -= 1; self.emit("}")
            self.block(self.small(), "_ => {")
            self.ind -= 1; self.emit("}")
        elif k == 1:
            n = self.fresh()
            self.emit("let mut %s: i64 = match (%s & 1, %s & 1) { (0, 0) => %s, (1, q) => %s.wrapping_add(q), (_, q) => { q } };" % (n, self.par(self.e(1)), self.par(self.e(1)), self.e(0), self.par2(self.e(0))))
            self.decl(n, I, True)
        else:
            n = self.fresh("en")
            self.emit("let mut %s = h_e1(%s, %s);" % (n, self.e(0), self.e(1)))
            a, b = self.fresh(), self.fresh()
            self.emit("match %s {" % (n if self.p(0.5) else "&mut " + n)); 
            byref = self.lines[-1].rstrip().endswith("&mut %s {" % n)
            self.ind += 1
            def arm(hd, vs):
                sv = list(self.vars); self.depth += 1
                for x in vs: self.decl(x, R(True, I) if byref else I, False)
                self.depth -= 1
                self.block(self.small(), hd)
                self.vars = sv
            arm("E1::A(%s) => {" % a, [a]); arm("E1::B { x: %s, y: %s } => {" % (a, b), [a, b])
            self.block(self.small(), "E1::C => {")
            self.ind -= 1; self.emit("}")
    def par(self, s): return "(%s)" % s
    def par2(self, s): return "(%s as i64)" % s
    def st_whiles(self):
        n = self.fresh("w")
        self.emit("let mut %s: i64 = %s & %d;" % (n, self.par(self.e(1)), self.ch([1, 3])))
        v = self.decl(n, I, True); v.mut = False
        extra = " && %s" % self.cond_pure() if self.p(0.3) else ""
        self.block(self.small(), "while %s > 0%s {" % (n, extra) if True else None, loop=True, tail=None) if False else self._while(n, extra)
    def _while(self, n, extra):
        self.emit("while %s > 0%s {" % (n, extra)); self.ind += 1; self.emit("%s -= 1;" % n); self.ind -= 1
        self.block(self.small(), None, loop=True)
    def st_fors(self):
        n = self.fresh("fi")
        k = self.g.randrange(3)
        if k == 0: hd = "for %s in 0..(%s & 3) {" % (n, self.par(self.e(1)))
        elif k == 1: hd = "for %s in 0..2i64 {" % n
        else: hd = "for %s in [%s, %s] {" % (n, self.e(0), self.e(0))
        sv = list(self.vars); self.decl(n, I, False)
        self.block(self.small(), hd, loop=True)
        self.vars = sv
    def st_loops(self):
        n = self.fresh("w")
        self.emit("let mut %s: i64 = 0;" % n); v = self.decl(n, I, False)
        self.emit("loop {"); self.ind += 1; self.emit("%s += 1;" % n); self.emit("if %s > %s || %s { break; }" % (n, self.ch(["2", "(%s & 3)" % self.simple()]) , "%s > 4" % n)); self.ind -= 1
        self.block(self.small(), None, loop=True)
    def st_loopval(self):
        n, r = self.fresh("w"), self.fresh()
        self.emit("let mut %s: i64 = 0;" % n); self.decl(n, I, False)
        self.emit("let mut %s: i64 = loop { %s += 1; if %s > (%s & 3) { break %s; } if %s { break %s; } };" % (r, n, n, self.simple(), self.e(0), self.cond_pure(), n))
        self.decl(r, I, True)
    def st_labelled(self):
        self.nlab += 1; lab = "'l%d" % self.nlab
        n, m = self.fresh("fi"), self.fresh("fi")
        sv = list(self.vars)
        self.emit("%s: for %s in 0..2i64 {" % (lab, n)); self.ind += 1; self.depth += 1
        self.decl(n, I, False)
        self.emit("for %s in 0..(%s & 3) {" % (m, self.simple())); self.ind += 1
        self.decl(m, I, False)
        self.emit("if %s { %s %s; }" % (self.cond(1), self.ch(["break", "continue"]), lab)); self.ind -= 1
        self.block(self.small(), None, loop=True)
        self.vars = [x for x in self.vars if x.name != m]
        self.st_assign()
        self.locks = [l for l in self.locks if l[2] < self.depth]
        self.ind -= 1; self.depth -= 1; self.emit("}")
        self.vars = sv
    def st_brk(self):
        if self.loopdepth == 0: return self.st_assign()
        self.emit("if %s { %s; }" % (self.cond(2), self.ch(["break", "break", "continue"])))
    def st_iflet(self):
        n = self.fresh("op"); a = self.fresh()
        self.emit("let mut %s: Option<i64> = %s;" % (n, self.ch(["h_opt(%s, %s)" % (self.e(0), self.e(1)), "Some(%s)" % self.e(1), "if %s { Some(%s) } else { None }" % (self.cond(), self.e(0))])))
        k = self.g.randrange(4)
        sv = list(self.vars)
        if k == 0:
            self.decl(a, I, False); self.block(self.small(), "if let Some(%s) = %s {" % (a, n)); self.vars = sv
            if self.p(0.5):
                self.lines[-1] = self.lines[-1].rstrip() + " else {"; self.block(1, None)
        elif k == 1:
            self.decl(a, R(True, I), False); self.block(self.small(), "if let Some(%s) = &mut %s {" % (a, n)); self.vars = sv
            self.emit("let mut %sz: i64 = %s.unwrap_or(%s);" % (a, n, self.e(0))); self.decl(a + "z", I, True)
        elif k == 2:
            self.emit("let mut %s: i64 = %s.map(|q| q.wrapping_mul(2)).unwrap_or(%s);" % (a, n, self.e(0))); self.decl(a, I, True)
        else:
            self.emit("let mut %s: i64 = match %s { Some(q) if q > 0 => q, Some(_) => %s, None => %s };" % (a, n, self.e(0), self.e(0))); self.decl(a, I, True)
    def st_letelse(self):
        if self.loopdepth == 0: return self.st_iflet()
        n, a = self.fresh("op"), self.fresh()
        self.emit("let %s = h_opt(%s, %s);" % (n, self.e(0), self.e(1)))
        self.emit("let Some(mut %s) = %s else { %s };" % (a, n, self.ch(["break", "continue"]))); self.decl(a, I, True)
    def st_shortc(self):
        n = self.fresh("b")
        self.emit("let %s = %s %s %s;" % (n, "(%s)" % self.cond(1), self.ch(["&&", "||"]), "(%s)" % self.cond(1)))
        self.vars.append(Var(n, ("B",), False, self.depth))
    def st_diverge(self):
        if self.never or self.ndiv or self.noexit: return self.st_ifs()
        self.ndiv, self.indiv = 1, True
        ld, self.loopdepth = self.loopdepth, 0      # nothing in there leaves it
        c = self.cond(2)
        def tail():
            for _ in range(2): self.st_obs()
            self.emit("dv();")
        self.block(self.small() + 1, "if %s {" % c, tail)
        self.loopdepth, self.indiv = ld, False
    def st_earlyret(self):
        if self.noexit: return self.st_assign()
        self.exits += 1
        c = self.cond(2)
        if self.ret is None: r = "return"
        else:
            n0 = len(self.lines); r = "return " + self.val(self.ret, 0)
        self.emit("if %s { ex(%d); %s; }" % (c, self.exits, r))
        self.early = True
    # ---- references
    RT = [I, I, I, S("S1"), S("S1"), T(I, I), ARR, S("S2")]
    def st_bmut(self):
        ty = self.ch(self.RT); p = self.wplace(ty)
        n = self.fresh("r")
        t = self.inst(p)
        self.emit("let %s%s = &mut %s;" % ("mut " if self.p(0.4) else "", n, t))
        v = self.decl(n, R(True, ty), False)
        if "let mut" in self.lines[-1]: v.mut = True; v.noassign = True
        self.lock(p.path, True)
    def st_bshr(self):
        ty = self.ch(self.RT); p = self.rplace(ty)
        n = self.fresh("r")
        self.emit("let mut %s = &%s;" % (n, self.inst(p)))
        v = self.decl(n, R(False, ty), True); v.noassign = True
        self.lock(p.path, False)
    def st_sharedcopy(self):
        c = [v for v in self.vars if not v.dead and v.ty[0] == "r" and not v.ty[1] and self.can_read((v.name,))]
        if not c: return self.st_bshr()
        v = self.ch(c); n = self.fresh("r")
        self.emit("let mut %s = %s;" % (n, v.name)); w = self.decl(n, v.ty, True); w.noassign = True
    def two(self, ty, mut):
        c = [p for p in (self.wr(ty) if mut else self.rd(ty)) if "[" not in p.text]
        self.g.shuffle(c)
        for i, p in enumerate(c):
            for q in c[i + 1:]:
                if not overlap(p.path, q.path): return p, q
        a, b = self.newvar(ty), self.newvar(ty)
        return Place(a.name, (a.name,), ty, True), Place(b.name, (b.name,), ty, True)
    def st_bcond(self):
        ty = self.ch([I, I, S("S1"), T(I, I)]); mut = self.p(0.75)
        p, q = self.two(ty, mut); n = self.fresh("r"); m = "&mut " if mut else "&"
        c = self.cond_pure()
        if self.p(0.5): self.emit("let %s = if %s { %s%s } else { %s%s };" % (n, c, m, p.text, m, q.text))
        else:
            self.emit("let mut %s = %s%s;" % (n, m, p.text)); self.emit("if %s { %s = %s%s; }" % (c, n, m, q.text))
        self.decl(n, R(mut, ty), False); self.lock(p.path, mut); self.lock(q.path, mut)
    def st_reassign(self):
        """a reference variable that changes its target over its life"""
        ty = self.ch([I, I, S("S1")]); mut = self.p(0.75)
        p, q = self.two(ty, mut); n = self.fresh("r"); m = "&mut " if mut else "&"
        f = "" if ty == I else "." + self.ch("ab")
        self.emit("let mut %s = %s%s;" % (n, m, p.text))
        self.lock(p.path, mut); self.lock(q.path, mut)
        self.decl(n, R(mut, ty), False)
        if mut and self.p(0.7): self.emit("%s%s = %s;" % ("*" + n if ty == I else n, f, self.e(1)))
        else: self.st_obs()
        if self.p(0.6): self.emit("%s = %s%s;" % (n, m, q.text))
        else: self.emit("if %s { %s = %s%s; }" % (self.cond_pure(), n, m, q.text))
        if mut: self.emit("%s%s = %s;" % ("*" + n if ty == I else n, f, self.e(1)))
    def st_reborrow(self):
        c = [v for v in self.vars if not v.dead and v.ty[0] == "r" and v.ty[1] and self.can_write((v.name, "*"))]
        if not c: return self.st_bmut()
        v = self.ch(c); t = v.ty[2]; n = self.fresh("r")
        opts = []
        self._w(Place("(*%s)" % v.name, (v.name, "*"), t, True), opts, v, 1)
        opts = [p for p in opts if self.can_write(p.path)]
        if not opts: return
        p = self.ch(opts); mut = self.p(0.8)
        self.emit("let %s = %s%s;" % (n, "&mut " if mut else "&", self.inst(p)))
        self.decl(n, R(mut, p.ty), False); self.lock(p.path, mut)
    def st_cursor(self):
        """references that move between targets inside a loop"""
        p, q = self.two(I, True); w = self.fresh("w"); a, b, t = self.fresh("r"), self.fresh("r"), self.fresh("r")
        l0 = len(self.locks); self.locks += [((p.path[0],), True, self.depth), ((q.path[0],), True, self.depth)]
        e, c, e0 = self.e(1), self.cond_pure(), self.simple()
        del self.locks[l0:]
        self.emit("{ let mut %s: i64 = 0;" % w); self.ind += 1
        k = self.g.randrange(4)
        if k == 0:
            self.emit("let mut %s = &mut %s;" % (a, p.text))
            self.emit("while %s < (%s & 3) {" % (w, e0))
            self.emit("  if %s == 1 { %s = &mut %s; }" % (w, a, q.text))
            self.emit("  let %s = &mut *%s; *%s = %s; %s = %s; %s += 1;" % (t, a, t, e, a, t, w))
            self.emit("}")
        elif k == 1:
            self.emit("let (mut %s, mut %s) = (&mut %s, &mut %s);" % (a, b, p.text, q.text))
            self.emit("while %s < (%s & 3) { *%s = %s;" % (w, e0, a, e))
            self.emit(self.ch(["  let %s = %s; %s = %s; %s = %s; %s += 1; }" % (t, a, a, b, b, t, w), "  std::mem::swap(&mut %s, &mut %s); %s += 1; }" % (a, b, w)]))
            self.emit("*%s = %s;" % (b, e0))
        elif k == 2:
            self.emit("let mut %s = Some(&mut %s); let mut %s = Some(&mut %s);" % (a, p.text, b, q.text))
            self.emit("while %s < 3 { if %s { if let Some(%s) = %s.take() { *%s = %s; } } else if let Some(%s) = %s.as_mut() { **%s = %s; } %s += 1; }" % (w, c, t, a, t, e, t, b, t, e0, w))
        else:
            self.emit("let %s = [&mut %s, &mut %s];" % (a, p.text, q.text))
            self.emit("for %s in %s { if %s != (%s & 1) { *%s = %s; } %s += 1; }" % (t, a, w, e0, t, e, w))
        self.ind -= 1; self.emit("}")
    def st_dynbox(self):
        """boxed trait objects that hold borrows"""
        p, q = self.two(I, True); b, y = self.fresh("c"), self.fresh()
        l0 = len(self.locks); self.locks += [((p.path[0],), True, self.depth), ((q.path[0],), True, self.depth)]
        e, e1 = self.e(1), self.simple()
        del self.locks[l0:]
        k = self.g.randrange(4)
        if k == 0: self.emit("{ let mut %s: Box<dyn FnMut(i64) + '_> = Box::new(|y| %s = %s.wrapping_add(y)); %s(%s); }" % (b, p.text, p.text, b, e))
        elif k == 1: self.emit("{ let mut %s: Vec<Box<dyn FnMut(i64) + '_>> = vec![Box::new(|y| %s = y), Box::new(|y| %s ^= y)]; %s[(%s & 1) as usize](%s); }" % (b, p.text, q.text, b, e1, e))
        elif k == 2:
            self.emit("let mut %s: i64 = { let %s: Box<dyn Fn(i64) -> i64 + '_> = Box::new(|y| y.wrapping_sub(%s)); %s(%s) };" % (y, b, p.text, b, e)); self.decl(y, I, True)
        else: self.emit("{ let mut %s = h_mkadd(&mut %s, %s); %s(%s); }" % (b, p.text, e1, b, e))
    def st_nested(self):
        c = [v for v in self.vars if not v.dead and v.ty[0] == "r" and v.ty[1] and v.mut and self.can_write((v.name,))]
        if not c:
            p = self.wplace(I); n = self.fresh("r")
            self.emit("let mut %s = &mut %s;" % (n, self.inst(p))); v = self.decl(n, R(True, I), True); v.noassign = True; self.lock(p.path, True)
        else: v = self.ch(c)
        n = self.fresh("r")
        self.emit("let %s = &mut %s;" % (n, v.name)); self.decl(n, R(True, v.ty), False); self.lock((v.name,), True)
        if v.ty[2] == I: self.emit("**%s = %s;" % (n, self.e(1)))
    def st_refstruct(self):
        n = self.fresh("rs"); k = self.g.randrange(4)
        if k <= 1:
            p = self.wplace(I); t = self.inst(p); self.lock(p.path, True)
            self.emit("let mut %s = %s;" % (n, "R1 { r: &mut %s, n: %s }" % (t, self.e(1)) if k == 0 else "h_wrap(&mut %s, %s)" % (t, self.e(1))))
            v = self.decl(n, S("R1"), True); v.noassign = True
        elif k == 2:
            p = self.wplace(S("S1")); self.lock(p.path, True); q = self.wplace(I); t = self.inst(q); self.lock(q.path, True)
            self.emit("let mut %s = R2 { p: &mut %s, q: &mut %s };" % (n, p.text, t))
            v = self.decl(n, S("R2"), True); v.noassign = True
        else:
            p = self.rplace(I); t = self.inst(p); self.lock(p.path, False)
            self.emit("let mut %s = Q1 { r: &%s, n: %s };" % (n, t, self.e(1)))
            v = self.decl(n, S("Q1"), True); v.noassign = True
    def st_structcall(self):
        c = [v for v in self.vars if not v.dead and v.ty[0] == "s" and v.ty[1] in ("R1", "R2", "Q1") and self.can_write((v.name,))]
        if not c: return self.st_refstruct()
        v = self.ch(c)
        if v.ty[1] == "R1":
            if self.p(0.7): self.emit("let t0 = %s; h_r1(&mut %s, t0);" % (self.e(1), v.name))
            else:
                n = self.fresh(); self.emit("let mut %s = h_r1v(R1 { r: &mut *%s.r, n: %s });" % (n, v.name, self.e(0) if False else v.name + ".n")); self.decl(n, I, True)
        elif v.ty[1] == "R2": self.emit("h_r2(&mut %s);" % v.name)
        else:
            n = self.fresh(); self.emit("let mut %s = h_q1(&%s);" % (n, v.name)); self.decl(n, I, True)
    def st_holder(self):
        """something that holds references is handed over whole after writes through it"""
        R1I, R1S, RT = R(True, I), R(True, S("S1")), T(R(True, I), R(True, I))
        c = [v for v in self.vars if not v.dead and v.ty in (R1I, R1S, RT, S("R1"), S("R2")) and self.can_write((v.name,))]
        if not c or self.p(0.2): return self.ch([self.st_refstruct, self.st_refstruct, self.st_reftup, self.st_bmut])()
        v = self.ch(c); n = v.name
        if self.p(0.75):
            ws = []
            self._w(Place(n, (n,), v.ty, v.mut), ws, v)
            ws = [p for p in ws if p.ty == I and self.can_write(p.path) and "*" in p.path]
            if ws: self.emit("%s = %s;" % (self.inst(self.ch(ws)), self.e(1)))
        o = self.fresh()
        rd = {R1I: "h_prr", R1S: "h_prs", RT: "h_pt2", S("R1"): "h_pr1", S("R2"): "h_pr2"}[v.ty]
        if v.depth == self.depth and self.p(0.4):
            k = self.g.randrange(3)
            mv = {RT: "h_mt2", S("R1"): "h_mr1", S("R2"): "h_mr2"}.get(v.ty, "h_gmv") if k == 0 else "h_gmv"
            if k < 2: self.emit("let mut %s = %s(%s);" % (o, mv, n))
            else: self.emit("let mut %s: i64 = 0; h_gst(%s, &mut %s);" % (o, n, o))
            v.dead = True
        else:
            self.emit("let mut %s = %s(&%s);" % (o, rd if self.p(0.6) else "h_gpr", n))
        self.decl(o, I, True)
    def st_reftup(self):
        p, q = self.two(I, True); a, b = self.fresh("r"), self.fresh("r")
        if self.p(0.5):
            self.emit("let (%s, %s) = (&mut %s, &mut %s);" % (a, b, p.text, q.text)); self.decl(a, R(True, I), False); self.decl(b, R(True, I), False)
        else:
            self.emit("let %s = (&mut %s, &mut %s);" % (a, p.text, q.text)); self.decl(a, T(R(True, I), R(True, I)), False)
        self.lock(p.path, True); self.lock(q.path, True)
    def st_refarr(self):
        p, q = self.two(I, True)
        if self.p(0.5):
            n = self.fresh("ra"); self.emit("{ let %s = [&mut %s, &mut %s]; *%s[(%s & 1) as usize] = %s; }" % (n, p.text, q.text, n, self.g.choice(["0i64", "1i64"]), self.safe_e([p, q])))
        else:
            n = self.fresh("q"); e = self.safe_e([p, q]); self.emit("for %s in vec![&mut %s, &mut %s] { *%s ^= %s; }" % (n, p.text, q.text, n, e))
    def safe_e(self, ps):
        ls = len(self.locks)
        for p in ps: self.locks.append((p.path, True, self.depth))
        t = self.e(1)
        del self.locks[ls:ls + len(ps)]
        return t
    def st_refopt(self):
        p = self.wplace(I); t = self.inst(p); n, a = self.fresh("ro"), self.fresh("q")
        e = self.safe_e([p]); 
        ls = len(self.locks); self.locks.append((p.path, True, self.depth)); c = self.cond_pure(); del self.locks[ls:]
        self.emit("let mut %s = if %s { Some(&mut %s) } else { None };" % (n, c, t))
        self.emit("if let Some(%s) = %s { **%s = %s; }" % (a, n + ".as_mut()", a, e) if self.p(0.5) else "if let Some(%s) = %s { *%s = %s; }" % (a, n, a, e))
    def st_enumref(self):
        p = self.wplace(I); t = self.inst(p); n = self.fresh("er"); e1, e2 = self.safe_e([p]), self.safe_e([p])
        ls = len(self.locks); self.locks.append((p.path, True, self.depth)); c = self.cond_pure(); del self.locks[ls:]
        r = self.fresh()
        self.emit("let mut %s = if %s { E2::L(&mut %s) } else { E2::N(%s) };" % (n, c, t, e1))
        self.emit("let mut %s: i64 = match &mut %s { E2::L(q) => { let z = **q; **q = %s; z } E2::N(q) => *q };" % (r, n, e2))
        self.decl(r, I, True)
    def st_slices(self):
        p = self.wplace(ARR); k = self.g.randrange(6)
        a, b = self.fresh("r"), self.fresh("r")
        if k == 0:
            self.emit("let (%s, %s) = %s.split_at_mut(2);" % (a, b, p.text))
            self.emit("%s[%s] = %s;" % (a, "(%s & 1) as usize" % self.g.choice(["0i64", b + "[0]"]), self.safe_e([p])))
        elif k == 1:
            e = self.safe_e([p]); self.emit("if let [%s, %s @ ..] = &mut %s[..] { *%s = %s; %s[1] = *%s; }" % (a, b, p.text, a, e, b, a))
        elif k == 2:
            s = self.safe_e([p]); self.emit("let %s = &mut %s[(%s & 1) as usize..];" % (a, p.text, self.par(s))); self.emit("%s[0] = %s;" % (a, self.safe_e([p])))
        elif k == 3:
            n = self.fresh(); self.emit("let mut %s = h_sum(&%s[1..]);" % (n, p.text)); self.decl(n, I, True)
        elif k == 4:
            e = self.safe_e([p]); self.emit("h_fill(&mut %s[..2], %s);" % (p.text, e))
        else:
            self.emit("let [%s, .., %s] = &mut %s;" % (a, b, p.text)); self.decl(a, R(True, I), False); self.decl(b, R(True, I), False); self.lock(p.path, True)
    def st_refpat(self):
        k = self.g.randrange(3); a, b = self.fresh("r"), self.fresh("r")
        if k == 0:
            p = self.wplace(S("S1")); self.emit("let S1 { a: ref mut %s, b: ref %s } = %s;" % (a, b, p.text)); self.decl(a, R(True, I), False); self.decl(b, R(False, I), False); self.lock(p.path, True)
        elif k == 1:
            p = self.wplace(T(I, I)); self.emit("let (%s, %s) = &mut %s;" % (a, b, p.text)); self.decl(a, R(True, I), False); self.decl(b, R(True, I), False); self.lock(p.path, True)
        else:
            p = self.wplace(S("S1")); self.emit("let %s = &mut %s.a; let %s = &mut %s.b;" % (a, p.text, b, p.text)); self.decl(a, R(True, I), False); self.decl(b, R(True, I), False); self.lock(p.path + ("a",), True); self.lock(p.path + ("b",), True)
    def st_itermut(self):
        p = self.wplace(ARR); n = self.fresh("q"); e = self.safe_e([p])
        if self.p(0.6): self.emit("for %s in %s.iter_mut() { *%s = (*%s).wrapping_add(%s); }" % (n, p.text, n, n, e))
        else: self.emit("for (i, %s) in %s.iter_mut().enumerate() { if i == 1 { *%s = %s; } }" % (n, p.text, n, e))
    # ---- calls
    def st_callr(self):
        n = self.fresh(); k = self.g.randrange(7)
        if k == 0: t = "h_add(%s, %s)" % (self.e(1), self.e(1))
        elif k == 1: t = "h_sel(%s, %s, %s)" % (self.e(0), self.e(1), self.e(1))
        elif k == 2: t = "h_read(&%s)" % self.inst(self.rplace(I))
        elif k == 3: t = "h_sum(&%s)" % self.rplace(ARR).text
        elif k == 4: t = "h_neg(%s)" % self.e(2)
        elif k == 5: t = "%s.sum()" % self.rplace(S("S1")).text
        else:
            self.emit("let mut %s = h_mk(%s, %s);" % (n, self.e(1), self.e(1))); self.decl(n, S("S1"), True); return
        self.emit("let mut %s: i64 = %s;" % (n, t)); self.decl(n, I, True)
    def st_callm(self):
        k = self.g.randrange(9)
        if k == 0: p = self.wplace(I); self.emit("h_store(&mut %s, %s);" % (self.inst(p), self.safe_e([p])))
        elif k == 1:
            p, q = self.two(I, True); self.emit("h_addto(&mut %s, &%s);" % (p.text, q.text))
        elif k == 2: p, q = self.two(I, True); self.emit("h_swap(&mut %s, &mut %s);" % (p.text, q.text))
        elif k == 3: p = self.wplace(I); n = self.fresh(); self.emit("let mut %s = h_inc(&mut %s);" % (n, self.inst(p))); self.decl(n, I, True)
        elif k == 4: p = self.wplace(S("S1")); self.emit("h_s1set(&mut %s, %s);" % (p.text, self.safe_e([p])))
        elif k == 5: p, q = self.two(S("S1"), True); self.emit("h_s1cp(&mut %s, &%s);" % (p.text, q.text))
        elif k == 6: p = self.wplace(T(I, I)); self.emit("h_tup(&mut %s, %s);" % (p.text, self.safe_e([p])))
        elif k == 7: p = self.wplace(ARR); self.emit("h_arr(&mut %s, %s, %s);" % (p.text, self.safe_e([p]), self.safe_e([p])))
        else:
            p = self.wplace(T(I, I)); self.emit("%s = h_tmove(%s);" % (p.text, p.text))
    def st_method(self):
        p = self.wplace(S("S1")); k = self.g.randrange(6); n = self.fresh()
        if k == 0: self.emit("%s.set(%s);" % (p.text, self.safe_e([p])))
        elif k == 1: self.emit("let mut %s = %s.bump();" % (n, p.text)); self.decl(n, I, True)
        elif k == 2: self.emit("*%s.am() = %s;" % (p.text, self.safe_e([p])))
        elif k == 3: self.emit("let mut %s = *%s.br();" % (n, p.text)); self.decl(n, I, True)
        elif k == 4: self.emit("let mut %s = %s.with(%s);" % (n, p.text, self.e(1))); self.decl(n, S("S1"), True)
        else:
            c = self.wr(S("pm::Acc"))
            if not c: self.newvar(S("pm::Acc"))
            else:
                q = self.ch(c); self.emit("let t0 = %s; %s.add(t0);" % (self.e(1), q.text))
                self.emit("let mut %s = %s.get();" % (n, q.text)); self.decl(n, I, True)
    def st_retref(self):
        k = self.g.randrange(7); n = self.fresh("r")
        if k <= 1:
            p, q = self.two(I, True); self.emit("let %s = h_pick(%s, &mut %s, &mut %s);" % (n, self.safe_e([p, q]), p.text, q.text)); self.decl(n, R(True, I), False); self.lock(p.path, True); self.lock(q.path, True)
        elif k == 2:
            p, q = self.two(I, False); self.emit("let mut %s = h_pickr(%s, &%s, &%s);" % (n, self.e(1), p.text, q.text)); v = self.decl(n, R(False, I), False); self.lock(p.path, False); self.lock(q.path, False)
        elif k == 3:
            p, q = self.two(I, True); self.emit("let %s = h_first(&mut %s, &mut %s);" % (n, p.text, q.text)); self.decl(n, R(True, I), False); self.lock(p.path, True)
        elif k == 4:
            p = self.wplace(I); self.emit("let %s = h_id(&mut %s);" % (n, self.inst(p))); self.decl(n, R(True, I), False); self.lock(p.path, True)
        elif k == 5:
            p = self.wplace(S("S1")); self.emit("let %s = %s;" % (n, "h_fa(&mut %s)" % p.text if self.p(0.5) else "%s.am()" % p.text)); self.decl(n, R(True, I), False); self.lock(p.path, True)
        else:
            p = self.wplace(S("S1")); m = self.fresh("r"); self.emit("let (%s, %s) = h_fab(&mut %s);" % (n, m, p.text)); self.decl(n, R(True, I), False); self.decl(m, R(True, I), False); self.lock(p.path, True)
    def closbody(self):
        sk = self.infn; self.infn = True
        t = self.e(1); self.infn = sk
        return t
    def st_clos(self):
        n = self.fresh("c"); body = self.closbody()
        mv = "" if self.p(0.7) else "move "
        if "*" in body: mv = ""
        roots = [v for v in self.vars if not v.dead and self.word(v.name, body)]
        if any(not is_copy(v.ty) for v in roots if v.ty != ("B",)): mv = ""
        self.emit("let %s = %s|y: i64| -> i64 { y.wrapping_add(%s) };" % (n, mv, body))
        for v in roots:
            if not mv: self.lock((v.name,), False)
        r = self.fresh(); self.emit("let mut %s: i64 = %s(%s);" % (r, n, self.e(1))); self.decl(r, I, True)
        if self.p(0.4): 
            r = self.fresh(); self.emit("let mut %s: i64 = h_dynread(&%s, %s);" % (r, n, self.e(1))); self.decl(r, I, True)
    def word(self, w, s):
        import re
        return re.search(r"\b%s\b" % w, s) is not None
    def st_closm(self):
        c = [p for p in self.wr(I) if "[" not in p.text]
        if not c: return self.st_clos()
        p = self.ch(c); n = self.fresh("c")
        ls = len(self.locks); self.locks.append(((p.path[0],), True, self.depth)); body = self.closbody(); del self.locks[ls:]
        roots = [v for v in self.vars if not v.dead and self.word(v.name, body)]
        self.emit("let mut %s = |y: i64| { %s = y.wrapping_sub(%s); };" % (n, p.text, body))
        l0 = len(self.locks)
        for v in roots: self.lock((v.name,), False)
        self.lock((p.path[0],), True)
        for _ in range(self.g.randrange(1, 3)): 
            if self.p(0.3): self.emit("if %s { %s(%s); }" % (self.cond_pure(), n, self.e(0)))
            else: self.emit("%s(%s);" % (n, self.e(1)))
        if self.p(0.4): self.emit("h_dynapp(&mut %s, %s);" % (n, self.e(0)))
        del self.locks[l0:]
    def st_closarg(self):
        c = [p for p in self.wr(I) if "[" not in p.text]
        n = self.fresh()
        if c and self.p(0.6):
            p = self.ch(c); self.emit("let mut %s: i64 = h_apply(|y| { %s = y ^ %s; %s }, %s);" % (n, p.text, p.text, p.text, self.safe_e([p])))
        else: self.emit("let mut %s: i64 = h_once(|| %s);" % (n, self.closbody()))
        self.decl(n, I, True)
    def st_dyncall(self):
        p = self.wplace(S("S1")); n = self.fresh(); e = self.safe_e([p])
        if self.p(0.5): self.emit("{ let d: &mut dyn Tr = &mut %s; d.put(%s); }" % (p.text, e))
        else: self.emit("let mut %s: i64 = { let d: &dyn Tr = &%s; d.get(%s) };" % (n, p.text, e)); self.decl(n, I, True)
    def st_trait(self):
        ty = self.ch([S("S1"), S("S2")]); p = self.wplace(ty); k = self.g.randrange(4); n = self.fresh()
        if k == 0: self.emit("%s.put(%s);" % (p.text, self.safe_e([p])))
        elif k == 1: self.emit("let mut %s: i64 = %s.get(%s);" % (n, p.text, self.e(1))); self.decl(n, I, True)
        elif k == 2: self.emit("%s.dflt(%s);" % (p.text, self.safe_e([p])))
        else: self.emit("let mut %s: %s = Tr::mk(%s);" % (n, tstr(ty), self.e(1))); self.decl(n, ty, True)
    def st_generic(self):
        ty = self.ch([I, S("S1"), S("S2"), T(I, I)]); k = self.g.randrange(4); n = self.fresh()
        if k == 0:
            p, q = self.two(ty, True); self.emit("h_gset(&mut %s, &%s);" % (p.text, q.text))
        elif k == 1: self.emit("let mut %s: i64 = h_gid(%s);" % (n, self.e(1))); self.decl(n, I, True)
        elif k == 2:
            p = self.wplace(S("S1")); self.emit("h_tput(&mut %s, %s);" % (p.text, self.safe_e([p])))
        else:
            p = self.rplace(S("S1")); self.emit("let mut %s: i64 = h_tget(&%s, %s);" % (n, p.text, self.e(0))); self.decl(n, I, True)
    def st_opover(self):
        if self.p(0.5):
            p, q = self.rplace(S("S1")), self.rplace(S("S1")); n = self.fresh(); self.emit("let mut %s = %s + %s;" % (n, p.text, q.text)); self.decl(n, S("S1"), True)
        else:
            p = self.wplace(S("S1")); t = self.fresh("t"); self.emit("let %s = %s; %s += %s;" % (t, self.e(1), p.text, t))
    def st_fnptr(self):
        n, f = self.fresh(), self.fresh("fp")
        self.emit("let %s: fn(i64, i64) -> i64 = if %s { h_add } else { |x, _| x };" % (f, self.cond(1)))
        self.emit("let mut %s: i64 = %s(%s, %s);" % (n, f, self.e(1), self.e(0))); self.decl(n, I, True)
    def st_dropw(self):
        p = self.wplace(I); t = self.inst(p); e = self.safe_e([p])
        if self.p(0.5): self.emit("{ let _g = DropW { d: &mut %s, v: %s }; }" % (t, e))
        else: self.emit("drop(DropW { d: &mut %s, v: %s });" % (t, e))
    def st_gencall(self):
        if not self.gencallees: return self.st_callm()
        cn, params, ret = self.ch(self.gencallees)
        l0 = len(self.locks); args = []
        # places first, so that scalar arguments cannot overlap them
        for t in params:
            if t[0] == "r":
                p = (self.wplace(t[2]) if t[1] else self.rplace(t[2])); args.append(("&mut " if t[1] else "&") + self.inst_c(p)); self.lock(p.path, t[1], 10 ** 6)
            elif t == S("R1"):
                p = self.wplace(I); args.append("R1 { r: &mut %s, n: @ }" % self.inst_c(p)); self.lock(p.path, True, 10 ** 6)
            else: args.append(None)
        for i, t in enumerate(params):
            if args[i] is None: args[i] = self.val(t, 1)
            elif "@" in args[i]: args[i] = args[i].replace("@", self.e(0))
        del self.locks[l0:]
        call = "%s(%s)" % (cn, ", ".join(args))
        if ret is None: self.emit(call + ";")
        else:
            n = self.fresh(); self.emit("let mut %s: %s = %s;" % (n, tstr(ret), call)); self.decl(n, ret, True)
    def inst_c(self, p):
        return p.text.replace("[IDX]", "[%d]" % self.g.randrange(4)) if "[VIX" not in p.text else p.text[:p.text.index("[VIX")] + "[0]"
    # ---- whole functions
    ATYS = [I, I, I, S("S1"), T(I, I), R(True, I), R(True, I), R(False, I), R(True, S("S1")), R(False, S("S1")), R(True, T(I, I)), R(True, ARR), ARR, S("R1"), R(True, S("R1")), ("o", I), R(True, S("S2")), B(I)]
    def leaves_of(self, ty, text, out):
        """scalar leaves behind a place, as expressions (for reading an argument's memory after the call)"""
        k = ty[0]
        if k == "i": out.append(text)
        elif k == "t":
            for i, x in enumerate(ty[1:]): self.leaves_of(x, "%s.%d" % (text, i), out)
        elif k == "a": out.extend("%s[%d]" % (text, i) for i in range(4))
        elif k == "b": self.leaves_of(ty[1], "(*%s)" % text, out)
        elif k == "s":
            if ty[1].startswith("pm::"): return
            for f, x in STRUCTS[ty[1]]: self.leaves_of(x, "%s.%s" % (text, f), out)
        elif k == "r": self.leaves_of(ty[2], "(*%s)" % text, out)
    def arg_init(self, ty, sc, pre, idx):
        """expression building an argument; sc() yields the next scalar v[j]"""
        k = ty[0]
        if k == "i": return sc()
        if k == "t": return "(" + ", ".join(self.arg_init(x, sc, pre, idx) for x in ty[1:]) + ")"
        if k == "a": return "[%s]" % ", ".join(sc() for _ in range(4))
        if k == "b": return "Box::new(%s)" % self.arg_init(ty[1], sc, pre, idx)
        if k == "o": return "(if %s > 0 { Some(%s) } else { None })" % (sc(), sc())
        if k == "r":
            t = self.arg_init(ty[2], sc, pre, idx)
            n = "z%d_%d" % (idx, len(pre)); pre.append("let mut %s = %s;" % (n, t))
            if ty[1] and not has_ref(ty[2]): self.leaves_of(ty[2], n, self.post.setdefault(idx, []))
            return ("&mut " if ty[1] else "&") + n
        n = ty[1]
        if n == "pm::P1": return "pm::P1::new(%s, %s)" % (sc(), sc())
        return n + " { " + ", ".join("%s: %s" % (f, self.arg_init(x, sc, pre, idx)) for f, x in STRUCTS[n]) + " }"
    def final_obs(self, limit=16):
        leaves = [p for p in self.rd(I) if "[" not in p.text]
        arrs = [p for p in self.rd(I) if "[IDX]" in p.text]
        self.g.shuffle(leaves); self.g.shuffle(arrs)
        # references were created after the places they borrow: observing in reverse order of
        # creation keeps every borrow short enough
        order = {v.name: i for i, v in enumerate(self.vars)}
        chosen = sorted(leaves[:limit] + arrs[:3], key=lambda p: -order[p.path[0]])
        for p in chosen: self.obs(p.text.replace("[IDX]", "[%d]" % self.g.randrange(4)))
        for v in reversed(self.vars):
            if v.dead: continue
            if v.ty == VEC and self.can_read((v.name,)): self.obs("%s[0]" % v.name)
            if v.ty == P1 and self.can_read((v.name,)): self.obs("%s.x()" % v.name)
            if v.ty == ("B",): self.obs("%s as i64" % v.name)
            if v.ty == ("o", I) and self.can_read((v.name,)): self.obs("%s.unwrap_or(-77)" % v.name)
    def function(self, argtys=None):
        if argtys is None: argtys = [self.ch(self.ATYS) for _ in range(self.g.choice([0, 1, 2, 2, 3]))]
        params, pre, argof, call = [], [], [], []
        cnt = [0]
        for i, t in enumerate(argtys):
            def sc():
                argof.append(i + 1); cnt[0] += 1
                return "v[%d]" % (cnt[0] - 1)
            n = "a%d" % i
            call.append(self.arg_init(t, sc, pre, i))
            mut = self.p(0.7)
            params.append("%s%s: %s" % ("mut " if mut else "", n, tstr(t)))
            v = self.decl(n, t, mut)
            if has_ref(t): v.noassign = True
        self.ret = self.ch([I, I, S("S1"), T(I, I)]) if self.p(0.5) else None
        # a couple of knob-initialised variables to start from
        for _ in range(self.g.randrange(1, 4)):
            self.newvar(self.ch([I, I, T(I, I), S("S1")]), True)
        while self.budget > 0: self.stmt()
        if self.ret is not None: self.emit("let rv = %s;" % self.val(self.ret, 1))
        if self.early: self.emit("ex(0);")
        self.locks = []     # all borrows made above are over (NLL)
        self.final_obs()
        if self.never: self.emit("dv()")
        elif self.ret is not None: self.emit("rv")
        src = "pub fn %s(%s)%s {\n%s\n}" % (self.name, ", ".join(params), " -> " + tstr(self.ret) if self.ret else "", "\n".join(self.lines))
        post = []
        if self.ret is not None:
            ls = []; self.leaves_of(self.ret, "rv", ls)
            post += ["o(900000, %s);" % x for x in ls]
        for idx, ls in self.post.items(): post += ["o(%d, %s);" % (900001 + idx, x) for x in ls]
        return src, "{ %s let rv = %s(%s); %s }" % (" ".join(pre), self.name, ", ".join(call), " ".join(post)), argof

def gen_callee(rng, name, gencallees=()):
    """A helper with a random signature and a random body (no knobs or observers inside)."""
    g = Gen(rng, rng.choice(["data", "ref", "call", "ctl", "mix"]), name, nst=rng.choice([2, 4, 6]), gencallees=gencallees)
    g.infn = True
    n = rng.choice([1, 2, 2, 3])
    params = [rng.choice([I, I, R(True, I), R(True, I), R(False, I), S("S1"), R(True, S("S1")), R(False, S("S1")), R(True, T(I, I)), T(I, I), R(True, ARR), S("R1"), R(True, S("S2"))]) for _ in range(n)]
    ps = []
    for i, t in enumerate(params):
        m = rng.random() < 0.6
        ps.append("%sa%d: %s" % ("mut " if m else "", i, tstr(t)))
        v = g.decl("a%d" % i, t, m)
        if has_ref(t): v.noassign = True
    ret = rng.choice([None, None, I, I, S("S1"), T(I, I)])
    while g.budget > 0: g.stmt()
    g.locks = []
    tail = ""
    if ret is not None: tail = "\n  " + g.val(ret, 1)
    if len(g.lines) and ret is not None:
        # pre-statements emitted while building the tail are already in g.lines
        pass
    src = "pub fn %s(%s)%s {\n%s%s\n}" % (name, ", ".join(ps), "" if ret is None else " -> " + tstr(ret), "\n".join(g.lines), tail)
    return src, (name, params, ret)
