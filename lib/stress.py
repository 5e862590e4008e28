"""Functions that are extreme in one dimension, for C19. A generator for (name, source)."""
def shapes(k=1):
    n = lambda x: max(2, int(x * k))
    yield "terms", "pub fn terms(x: i64) -> i64 { %s }" % " + ".join(["x"] * n(500))
    yield "nested_parens", "pub fn nested_parens(x: i64) -> i64 { %s x %s }" % ("(1 + " * n(120), ")" * n(120))
    yield "ifs", "pub fn ifs(x: i64) -> i64 { let mut t = 0; %s t }" % " ".join("if x > %d { t += %d; }" % (i, i) for i in range(n(150)))
    yield "ifelse", "pub fn ifelse(x: i64) -> i64 { %s { 0 } }" % " ".join("if x == %d { %d } else" % (i, i) for i in range(n(120)))
    yield "nested_ifs", "pub fn nested_ifs(x: i64) -> i64 { let mut t = 0; %s t += 1; %s t }" % (" ".join("if x > %d { t += 1;" % i for i in range(n(100))), "}" * n(100))
    yield "arms", "pub fn arms(x: u16, y: &mut u16) -> u16 { match x { %s _ => 0 } }" % " ".join("%d => { *y = %d; %d }" % (i, i, i * 2) for i in range(n(300)))
    yield "arms_nested", "pub fn arms_nested(x: (u8, u8, Option<u8>)) -> u8 { match x { %s _ => 0 } }" % " ".join("(%d, %d.., Some(a)) if a > %d => a," % (i, i, i) for i in range(n(40)))
    yield "loops", "pub fn loops(x: i64) -> i64 { let mut t = 0; %s t += 1; %s t }" % (" ".join("for i%d in 0..x {" % i for i in range(n(12))), "}" * n(12))
    yield "loops_flat", "pub fn loops_flat(x: i64) -> i64 { let mut t = 0; %s t }" % " ".join("while t < %d { t += x; if t == %d { break; } }" % (i, i) for i in range(n(60)))
    yield "labels2", "pub fn labels2(x: i64) -> i64 { let mut t = 0; %s t += 1; %s %s t }" % (" ".join("'l%d: loop { t += x;" % i for i in range(n(20))), "if t > 3 { break 'l0; } if t > 2 { continue 'l1; }", "if t > 5 { break; } }" * n(20))
    yield "closures", "pub fn closures(x: i64) -> i64 { %s x %s }" % ("(|| { " * n(16), " })()" * n(16))
    yield "closures_mut", "pub fn closures_mut(mut x: i64) -> i64 { %s x }" % " ".join("{ let mut f = || { x += %d; }; f(); }" % i for i in range(n(80)))
    yield "refs2", "pub fn refs2(x: %si64) -> i64 { %sx }" % ("&" * n(24), "*" * n(24))
    yield "mutrefs", "pub fn mutrefs<'a>(x: %si64) -> i64 { %sx += 1; 0 }" % ("&'a mut " * n(12), "*" * n(12))
    yield "boxes2", "pub fn boxes2(x: &mut %si64%s) -> i64 { **%sx += 1; 0 }" % ("Box<" * n(12), ">" * n(12), "*" * (n(12) - 1))
    yield "fields", "pub struct Fs<'a> { %s } pub fn fields<'a>(x: &mut Fs<'a>, y: Fs<'a>) -> i64 { *x.f0 = *y.f1; x.f2 = y.f3; let z = Fs { f4: x.f5, ..y }; *z.f0 }" % ", ".join("pub f%d: &'a %s i64" % (i, "mut" if i < 2 else "") for i in range(n(60)))
    yield "tuple", "pub fn tuple(x: (%s), y: &mut (%s)) -> i64 { let mut z = x; z.0 = y.1; y.2 = z.3; z.4 }" % (", ".join(["i64"] * n(80)), ", ".join(["i64"] * n(80)))
    yield "nest_struct", " ".join("#[derive(Clone, Copy)] pub struct N%d { pub a: %s, pub b: i64 }" % (i, "N%d" % (i - 1) if i else "i64") for i in range(n(25))) + \
        " pub fn nest_struct(x: &mut N%d, y: i64) -> i64 { x.%s = y; let z = x.%s; z.b }" % (n(25) - 1, ".".join(["a"] * n(25)), ".".join(["a"] * (n(25) // 2)))
    yield "enum", "pub enum En<'a> { %s } pub fn enum_(x: En<'_>, y: &mut En<'_>) -> i64 { let mut t = 0; if let En::V1(a, b) = x { *b += a; t = a; } match y { En::V2(a, b) | En::V3(a, b) => { **b += 1; *a + t } _ => t } }" % ", ".join("V%d(i64, &'a mut i64)" % i for i in range(n(60)))
    yield "args", "pub fn args(%s) -> i64 { *a0 = *a1; *a2 += *a3; *a4 }" % ", ".join("a%d: &mut i64" % i for i in range(n(80)))
    yield "calls", "fn c0(x: &mut i64, y: &i64) -> i64 { *x += y; *x } pub fn calls(x: &mut i64) -> i64 { let mut t = 0; %s t }" % " ".join("t += c0(x, &t.clone());" for i in range(n(70)))
    yield "chain", "pub fn chain(v: Vec<i64>) -> i64 { v.into_iter()%s.sum() }" % "".join(".map(|x| x + %d)" % i for i in range(n(25)))
    yield "chain_bool", "pub fn chain_bool(a: &[bool]) -> bool { %s }" % " || ".join("(a[%d] && !a[%d])" % (i, i + 1) for i in range(n(80)))
    yield "questions", "fn q0(x: i64) -> Option<i64> { (x > 0).then_some(x) } pub fn questions(mut x: i64) -> Option<i64> { %s Some(x) }" % " ".join("x = q0(x)?;" for i in range(n(80)))
    yield "drops2", "pub fn drops2(c: bool) -> usize { %s if c { return s3.len(); } drop(s1); s2.len() }" % " ".join("let s%d = String::new();" % i for i in range(n(80)))
    yield "array", "pub fn array(x: i64, i: usize) -> i64 { let mut a = [%s]; a[i] = x; a[1] = a[i]; a[2] }" % ", ".join("x + %d" % i for i in range(n(150)))
    yield "lifetimes", "pub fn lifetimes<%s>(%s) %s" % (", ".join("'a%d" % i + (": 'a%d" % (i - 1) if i else "") for i in range(n(30))), ", ".join("x%d: &'a%d mut &'a%d i64" % (i, i, i) for i in range(n(30))), "{ %s }" % " ".join("*x%d = *x%d;" % (i, i + 1) for i in range(n(30) - 1)))
    yield "reassign", "pub fn reassign<'a>(a: &'a mut i64, b: &'a mut i64) { let (mut p, mut q) = (a, b); %s *p = *q; }" % " ".join("if *p > %d { std::mem::swap(&mut p, &mut q); }" % i for i in range(n(40)))
    yield "ring", " ".join("pub fn ring%d(x: &mut i64, n: i64) -> i64 { if n > 0 { *x += 1; ring%d(x, n - 1) + ring%d(x, n - 2) } else { *x } }" % (i, (i + 1) % n(12), (i + 5) % n(12)) for i in range(n(12)))
    yield "tower", "pub fn tower0(x: &mut i64) -> i64 { *x += 1; *x } " + " ".join("pub fn tower%d(x: &mut i64) -> i64 { tower%d(x) + tower%d(x) }" % (i, i - 1, i - 1) for i in range(1, n(28)))
    yield "generic", "pub trait Gt { type O: Gt; fn g(&mut self) -> Self::O; } pub fn generic<T: Gt>(mut x: T) { %s let z = y; }" % ("let mut y = x.g(); " + " ".join("let mut y = y.g();" for i in range(n(12))))
