//! What a harness may call.  Every function works in the symbolic run (inputs are symbols, checks are queries)
//! and in the native replay (inputs come from the model, checks are evaluated on machine floats).
use crate::*;

/// A float type a harness can be instantiated with.
pub trait Flt: Copy + PartialOrd + 'static {
    const W: u8;
    fn from_term(id: u32) -> Self;
    fn term(self) -> u32;
    fn from_f64(x: f64) -> Self;
    fn to_f64_native(self) -> f64;
    fn nbits(self) -> u64;
    fn from_nbits(b: u64) -> Self;
}
impl Flt for f64 {
    const W: u8 = 64;
    #[inline(never)]
    fn from_term(id: u32) -> f64 {
        crate::mk64(id)
    }
    #[inline(never)]
    fn term(self) -> u32 {
        cx().id64(self)
    }
    #[inline(never)]
    fn from_f64(x: f64) -> f64 {
        x
    }
    #[inline(never)]
    fn to_f64_native(self) -> f64 {
        self
    }
    #[inline(never)]
    fn nbits(self) -> u64 {
        self.to_bits()
    }
    #[inline(never)]
    fn from_nbits(b: u64) -> f64 {
        f64::from_bits(b)
    }
}
impl Flt for f32 {
    const W: u8 = 32;
    #[inline(never)]
    fn from_term(id: u32) -> f32 {
        crate::mk32(id)
    }
    #[inline(never)]
    fn term(self) -> u32 {
        cx().id32(self)
    }
    #[inline(never)]
    fn from_f64(x: f64) -> f32 {
        x as f32
    }
    #[inline(never)]
    fn to_f64_native(self) -> f64 {
        self as f64
    }
    #[inline(never)]
    fn nbits(self) -> u64 {
        self.to_bits() as u64
    }
    #[inline(never)]
    fn from_nbits(b: u64) -> f32 {
        f32::from_bits(b as u32)
    }
}

fn raw_var(name: &str, w: u8, kind: u32) -> u32 {
    let c = cx();
    let n = c.name_id(name);
    let w = if c.mode == Mode::Real { 64 } else { w };
    c.intern(Term { op: Op::Var, w, a: n, b: kind, c: NO, k: 0 })
}

fn model_f64(name: &str) -> f64 {
    let c = cx();
    match c.model.get(name) {
        Some(s) => match s.strip_prefix("0x") {
            Some(h) => f64::from_bits(u64::from_str_radix(h, 16).unwrap()),
            None => s.parse().unwrap(),
        },
        // inputs the model does not constrain
        None => 0.37 + 0.11 * ((name.bytes().map(|b| b as u64).sum::<u64>() % 7) as f64),
    }
}

/// Unconstrained float input.
#[inline(never)]
pub fn input<T: Flt>(name: &str) -> T {
    if cx().mode == Mode::Native {
        return T::from_f64(model_f64(name));
    }
    let id = raw_var(name, T::W, 0);
    if cx().shadow {
        let v = T::from_f64(model_f64(name)).to_f64_native();
        cx().set_shadow(id, v);
    }
    T::from_term(id)
}
/// An angle input (real mode): its half-angle sine and cosine become the free symbols, constrained to the circle.
/// Its value may only be used through trigonometric functions and affine arithmetic.
#[inline(never)]
pub fn angle<T: Flt>(name: &str) -> T {
    if cx().mode == Mode::Native {
        return T::from_f64(model_f64(name));
    }
    let id = raw_var(name, T::W, 1);
    if cx().shadow {
        let v = T::from_f64(model_f64(name)).to_f64_native();
        cx().set_shadow(id, v);
    }
    T::from_term(id)
}
/// Exact rational constant (real mode keeps p/q exactly).
#[inline(never)]
pub fn rat<T: Flt>(p: i32, q: i32) -> T {
    if cx().mode == Mode::Native || cx().mode == Mode::Fp {
        return T::from_f64(p as f64 / q as f64);
    }
    let r = p as f64 / q as f64;
    if r * q as f64 == p as f64 && (q & (q - 1)) == 0 {
        return T::from_f64(r);
    }
    let id = cx().intern(Term { op: Op::Rat, w: 64, a: p as u32, b: q as u32, c: NO, k: 0 });
    T::from_term(id)
}
/// Symbolic integer in 0..n, split by the explorer.
#[inline(never)]
pub fn choose(name: &str, n: usize) -> usize {
    if cx().mode == Mode::Native || cx().shadow {
        let v = cx().model.get(&format!("#{}", name)).map(|s| s.parse().unwrap()).unwrap_or(0);
        return v;
    }
    if n <= 1 {
        return 0;
    }
    let r = cx().ask(&format!("C {} {}", n, name));
    match r.parse() {
        Ok(v) => v,
        Err(_) => std::panic::panic_any(Abort("explorer cut the path")),
    }
}
#[inline(never)]
pub fn flag(name: &str) -> bool {
    choose(name, 2) == 1
}
/// Restrict the inputs. Every assumption is part of the claim.
#[inline(never)]
pub fn assume(b: bool) {
    if !b {
        std::panic::panic_any(Abort("assume"));
    }
}
/// Real mode: assume sum of squares of the values is one (unit axis / unit quaternion).
#[inline(never)]
pub fn assume_unit<T: Flt>(v: &[T]) {
    if cx().mode != Mode::Native {
        let ids: Vec<String> = v.iter().map(|x| x.term().to_string()).collect();
        cx().say(&format!("U {}", ids.join(" ")));
    }
}
#[inline(never)]
pub fn cover(name: &str) {
    cx().say(&format!("V {}", name));
}
/// Free text describing the scenario of this path, shown with a violation.
#[inline(never)]
pub fn note(s: &str) {
    cx().say(&format!("N {}", s.replace('\n', " ")));
}
/// The property: must be true on every path.
#[inline(never)]
pub fn check(name: &str, ok: bool) {
    cx().say(&format!("K {} {}", if ok { 1 } else { 0 }, name));
    if !ok {
        cx().failed.push(name.to_string());
        std::panic::panic_any(Abort("check failed"));
    }
}
/// Checked as a whole but without ending the path when it fails.
#[inline(never)]
pub fn check_soft(name: &str, ok: bool) {
    cx().say(&format!("K {} {}", if ok { 1 } else { 0 }, name));
    if !ok {
        cx().failed.push(name.to_string());
    }
}
/// Equality as one query: bit-identity up to NaN payload and zero sign in FP mode; exact real equality in real
/// mode (native replay: equality within `tol` relative to the magnitudes).
#[inline(never)]
pub fn eq<T: Flt>(name: &str, a: T, b: T) {
    eq_scaled(name, a, b, 1.0)
}
#[inline(never)]
pub fn eq_scaled<T: Flt>(name: &str, a: T, b: T, scale: f64) {
    match cx().mode {
        Mode::Native => {
            let (x, y) = (a.to_f64_native(), b.to_f64_native());
            let exact = cx().model.get("@mode").map(|s| s == "fp").unwrap_or(false);
            let ok = if exact {
                x == y || (x.is_nan() && y.is_nan())
            } else {
                let tol = if T::W == 32 { 2e-4 } else { 1e-7 };
                (x - y).abs() <= tol * (scale + x.abs() + y.abs())
            };
            cx().nat_lines.push(format!("E {} {:e} {:e} {}", if ok { 1 } else { 0 }, x, y, name));
            if !ok {
                cx().failed.push(name.to_string());
            }
        }
        _ => {
            if cx().shadow {
                return;
            }
            let (x, y) = (a.term(), b.term());
            cx().say(&format!("E {} {} {}", x, y, name));
        }
    }
}
/// `a <= b` as one solver query (no branch).
#[inline(never)]
pub fn le<T: Flt>(name: &str, a: T, b: T) {
    rel(name, a, b, Op::Le)
}
/// `a < b` as one solver query (no branch).
#[inline(never)]
pub fn lt<T: Flt>(name: &str, a: T, b: T) {
    rel(name, a, b, Op::Lt)
}
fn rel<T: Flt>(name: &str, a: T, b: T, op: Op) {
    match cx().mode {
        Mode::Native => {
            let (x, y) = (a.to_f64_native(), b.to_f64_native());
            let exact = cx().model.get("@mode").map(|s| s == "fp").unwrap_or(false);
            let tol = if exact { 0.0 } else { 1e-9 * (1.0 + x.abs() + y.abs()) };
            let ok = if tol > 0.0 { x <= y + tol } else if op == Op::Le { x <= y } else { x < y };
            cx().nat_lines.push(format!("A {} {:e} {:e} {}", if ok { 1 } else { 0 }, x, y, name));
            if !ok {
                cx().failed.push(name.to_string());
            }
        }
        _ => {
            if cx().shadow {
                return;
            }
            let c = cx();
            let (x, y) = (a.term(), b.term());
            // in the reals, a <= b is the negation of b < a
            let (id, want) = if c.mode == Mode::Real && op == Op::Le {
                (c.mk(Op::Lt, 1, y, x, NO), 0)
            } else {
                (c.mk(op, 1, x, y, NO), 1)
            };
            c.say(&format!("A {} {} {}", want, id, name));
        }
    }
}
/// Observation used to validate the symbolic run against the native run.
#[inline(never)]
pub fn obs<T: Flt>(name: &str, v: T) {
    match cx().mode {
        Mode::Native => {
            let b = v.to_f64_native().to_bits();
            cx().nat_lines.push(format!("O {} {}", b, name));
        }
        _ => {
            let id = v.term();
            if cx().shadow {
                let b = cx().eval(id).to_bits();
                cx().say(&format!("O {} {}", b, name));
            } else {
                cx().say(&format!("O {} {}", id, name));
            }
        }
    }
}
pub fn is_native() -> bool {
    cx().mode == Mode::Native
}
pub fn is_real() -> bool {
    cx().mode == Mode::Real || cx().model.get("@mode").map(|s| s == "real").unwrap_or(false)
}

/// Derivative of `f` with respect to input variable `x` on the recorded terms (real mode).
#[inline(never)]
pub fn diff<T: Flt>(f: T, x: T) -> T {
    let c = cx();
    let fid = f.term();
    let xid = x.term();
    let mut memo = HashMap::new();
    let r = d(c, fid, xid, &mut memo);
    match c.cval(r) {
        Some(v) => T::from_f64(v),
        None => T::from_term(r),
    }
}
fn d(c: &mut Ctx, f: u32, x: u32, memo: &mut HashMap<u32, u32>) -> u32 {
    if f == x {
        return c.konst(64, 1.0f64.to_bits());
    }
    if let Some(r) = memo.get(&f) {
        return *r;
    }
    let t = c.terms[f as usize];
    let zero = c.konst(64, 0);
    let r = match t.op {
        Op::Var | Op::Const | Op::Rat => zero,
        Op::Add | Op::Sub => {
            let (da, db) = (d(c, t.a, x, memo), d(c, t.b, x, memo));
            if t.op == Op::Sub && da == zero {
                c.mk(Op::Neg, 64, db, NO, NO)
            } else {
                c.mk(t.op, 64, da, db, NO)
            }
        }
        Op::Mul => {
            let (da, db) = (d(c, t.a, x, memo), d(c, t.b, x, memo));
            let l = c.mk(Op::Mul, 64, da, t.b, NO);
            let r = c.mk(Op::Mul, 64, t.a, db, NO);
            c.mk(Op::Add, 64, l, r, NO)
        }
        Op::Neg => {
            let da = d(c, t.a, x, memo);
            c.mk(Op::Neg, 64, da, NO, NO)
        }
        Op::Div => {
            let (da, db) = (d(c, t.a, x, memo), d(c, t.b, x, memo));
            let l = c.mk(Op::Div, 64, da, t.b, NO);
            if db == zero {
                l
            } else {
                let n = c.mk(Op::Mul, 64, t.a, db, NO);
                let b2 = c.mk(Op::Mul, 64, t.b, t.b, NO);
                let r = c.mk(Op::Div, 64, n, b2, NO);
                c.mk(Op::Sub, 64, l, r, NO)
            }
        }
        Op::Sin => {
            let da = d(c, t.a, x, memo);
            let k = c.mk(Op::Cos, 64, t.a, NO, NO);
            c.mk(Op::Mul, 64, k, da, NO)
        }
        Op::Cos => {
            let da = d(c, t.a, x, memo);
            let k = c.mk(Op::Sin, 64, t.a, NO, NO);
            let n = c.mk(Op::Neg, 64, k, NO, NO);
            c.mk(Op::Mul, 64, n, da, NO)
        }
        Op::Sqrt => {
            let da = d(c, t.a, x, memo);
            if da == zero {
                zero
            } else {
                let two = c.konst(64, 2.0f64.to_bits());
                let den = c.mk(Op::Mul, 64, two, f, NO);
                c.mk(Op::Div, 64, da, den, NO)
            }
        }
        _ => {
            let mut dep = false;
            for y in [t.a, t.b, t.c] {
                if y != NO && d(c, y, x, memo) != zero {
                    dep = true;
                }
            }
            if dep {
                std::panic::panic_any(Abort("derivative of an operation without a rule"));
            }
            zero
        }
    };
    memo.insert(f, r);
    r
}

// ------------------------------------------------------------------------------------------------
// driver
// ------------------------------------------------------------------------------------------------
pub struct Harness {
    pub name: &'static str,
    pub prop: &'static str,
    /// "fp" or "real"
    pub mode: &'static str,
    /// 0 = quick and thorough, 1 = thorough only
    pub tier: u8,
    pub f: fn(),
    pub bounds: &'static str,
    pub covers: &'static [&'static str],
}

fn jesc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c => o.push(c),
        }
    }
    o
}

fn run_once(h: &Harness) -> (String, String) {
    let r = std::panic::catch_unwind(|| (h.f)());
    match r {
        Ok(()) => ("ok".into(), String::new()),
        Err(e) => {
            if let Some(a) = e.downcast_ref::<Abort>() {
                match a.0 {
                    "assume" => ("assume".into(), String::new()),
                    "check failed" => ("failed".into(), String::new()),
                    "DEADLOCK" => ("deadlock".into(), String::new()),
                    x => ("cut".into(), x.to_string()),
                }
            } else {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                ("panic".into(), m)
            }
        }
    }
}
thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

/// Set by a harness around a call that is allowed to panic, so that the panic is not a violation by itself.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    match r {
        Ok(v) => Ok(v),
        Err(e) => {
            if e.downcast_ref::<Abort>().is_some() {
                std::panic::resume_unwind(e);
            }
            Err(LAST_PANIC.with(|p| p.borrow().clone()))
        }
    }
}

/// How a recorded operation ended.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ended {
    Done,
    Panicked,
    /// waits for a mutex it holds itself
    OnItself,
    /// waits for a mutex of the operation that was pre-empted
    OnOther,
    /// was pre-empted itself
    Preempted,
}
/// Runs `f` and returns the mutexes it took (1), tried to take (2) and released (0).
pub fn lock_trace(f: impl FnOnce()) -> (Vec<(u8, usize)>, Ended) {
    let c = cx();
    c.lock_log.clear();
    c.lock_on = true;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let c = cx();
    c.lock_on = false;
    let log = std::mem::take(&mut c.lock_log);
    let e = match r {
        Ok(()) => Ended::Done,
        Err(e) => match e.downcast_ref::<Abort>() {
            Some(a) if a.0 == "DEADLOCK" => Ended::OnItself,
            Some(a) if a.0 == "BLOCKED" => Ended::OnOther,
            Some(a) if a.0 == "PREEMPTED" => Ended::Preempted,
            Some(_) => std::panic::resume_unwind(e),
            None => Ended::Panicked,
        },
    };
    (log, e)
}
/// The next recorded operation is pre-empted before its `k`-th mutex (counted from 0) by `hook`.
pub fn preempt(k: usize, hook: Box<dyn FnOnce()>) {
    let c = cx();
    c.pre_at = k;
    c.pre_hook = Some(hook);
}
pub fn pre_held() -> Vec<usize> {
    cx().pre_held.clone()
}
/// Ends the path as a self-deadlock.
pub fn deadlock() -> ! {
    std::panic::panic_any(Abort("DEADLOCK"))
}
/// Reports a trace: `key` names the robot, `label` the operation.
pub fn report_trace(key: &str, label: &str, ctx: &str, events: &str) {
    if cx().mode != Mode::Native {
        cx().say(&format!("L {} {} {} {}", key, label, ctx, events));
    }
}
/// The schedule of a replay, if this run is one.
pub fn schedule() -> Option<Vec<usize>> {
    let c = cx();
    if c.mode != Mode::Native {
        return None;
    }
    c.model.get("@sched").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
}
pub fn model_int(name: &str) -> Option<usize> {
    cx().model.get(name).and_then(|s| s.parse().ok())
}

pub fn drive(hs: &[Harness]) {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i).replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for h in hs {
                let cov: Vec<String> = h.covers.iter().map(|c| format!("\"{}\"", jesc(c))).collect();
                println!(
                    "{{\"name\":\"{}\",\"prop\":\"{}\",\"mode\":\"{}\",\"tier\":{},\"bounds\":\"{}\",\"covers\":[{}]}}",
                    h.name, h.prop, h.mode, h.tier, jesc(h.bounds), cov.join(",")
                );
            }
        }
        Some("sym") => {
            let h = hs.iter().find(|h| h.name == args[2]).expect("no such harness");
            let c = cx();
            c.mode = if h.mode == "fp" { Mode::Fp } else { Mode::Real };
            c.out = Some(BufWriter::with_capacity(1 << 16, Box::new(std::io::stdout())));
            c.inp = Some(std::io::BufReader::new(Box::new(std::io::stdin())));
            loop {
                let r = cx().ask("NEXT");
                if r != "RUN" {
                    break;
                }
                cx().begin_path();
                let (st, msg) = run_once(h);
                cx().say(&format!("P {} {}", st, msg));
            }
            let c = cx();
            let n = c.branch_count;
            c.say(&format!("Q {}", n));
            c.out.as_mut().unwrap().flush().unwrap();
        }
        Some("replay") | Some("shadow") => {
            let h = hs.iter().find(|h| h.name == args[2]).expect("no such harness");
            let shadow = args[1] == "shadow";
            let mut txt = String::new();
            if args[3] == "-" {
                std::io::stdin().read_to_string(&mut txt).unwrap();
            } else {
                txt = std::fs::read_to_string(&args[3]).unwrap();
            }
            let mut n_models = 0;
            // several models separated by a line "---"
            for block in txt.split("---\n") {
                let c = cx();
                c.model.clear();
                c.nat_lines.clear();
                c.failed.clear();
                c.shadow_val.clear();
                for l in block.lines() {
                    if let Some((k, v)) = l.split_once('=') {
                        c.model.insert(k.trim().to_string(), v.trim().to_string());
                    }
                }
                if c.model.is_empty() && n_models > 0 {
                    continue;
                }
                n_models += 1;
                c.mode = Mode::Native;
                if shadow {
                    c.shadow = true;
                    c.mode = Mode::Fp;
                    c.out = Some(BufWriter::new(Box::new(Sink)));
                    c.shadow_real = h.mode == "real";
                }
                c.begin_path();
                if shadow {
                    SINK.with(|s| s.borrow_mut().clear());
                }
                let (st, msg) = run_once(h);
                let c = cx();
                if shadow {
                    c.out.as_mut().unwrap().flush().unwrap();
                    SINK.with(|s| {
                        for l in String::from_utf8_lossy(&s.borrow()).lines() {
                            if !l.starts_with("T ") && !l.starts_with("F ") {
                                println!("{}", l);
                            }
                        }
                    });
                } else {
                    for l in &c.nat_lines {
                        println!("{}", l);
                    }
                }
                println!("P {} {}", st, msg);
                println!("R {}", c.failed.join("\t"));
                std::io::stdout().flush().unwrap();
            }
        }
        _ => {
            eprintln!("usage: list | sym NAME | replay NAME MODEL | shadow NAME MODEL");
            std::process::exit(2);
        }
    }
}
thread_local! { static SINK: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) }; }
struct Sink;
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        SINK.with(|s| s.borrow_mut().extend_from_slice(b));
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Do the two values have the same normal form (proved equal)?  Native replay: never.
pub fn proved_eq<T: Flt>(a: T, b: T) -> bool {
    if same_term(a, b) {
        return true;
    }
    if cx().mode == Mode::Native || cx().shadow {
        return false;
    }
    let (x, y) = (a.term(), b.term());
    cx().ask(&format!("S {} {}", x, y)) == "1"
}
/// Are the two values the same symbolic term (or bit-identical)?  Used by harnesses to choose a cheaper but
/// equivalent way of stating an equality, never to decide one.
pub fn same_term<T: Flt>(a: T, b: T) -> bool {
    a.nbits() == b.nbits()
}
/// Is this a run of a model (native replay)?
pub fn native_run() -> bool {
    cx().mode == Mode::Native
}
