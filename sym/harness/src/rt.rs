//! Symbolic runtime.  A float whose bits are a quiet NaN with a non-zero id in
//! its payload denotes node `id` of the expression DAG below; every other bit
//! pattern is an ordinary concrete number.  The f64 form is exactly what the
//! hardware makes of the f32 form when widening, so native `as f64`/`as f32`
//! casts in un-instrumented code keep the identity of the term.
#![allow(static_mut_refs)]
use std::collections::HashMap;
use std::io::{BufRead, Write};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u64),
    Var(u32),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Div(u32, u32),
    Rem(u32, u32),
    Un(u8, u32),
    Bin(u8, u32, u32),
    Sel(u8, u32, u32, u32, u32),
    Bad(u32),
    // booleans live in the same table
    Cmp(u8, u32, u32),
    And(u32, u32),
    Or(u32, u32),
    Not(u32),
    True,
    False,
}

pub struct Rt {
    pub nodes: Vec<N>,
    pub map: HashMap<N, u32>,
    pub sent: usize,
    pub decided: HashMap<(u8, u32, u32), bool>,
    pub out: Option<std::fs::File>,
    pub inp: Option<std::io::BufReader<std::fs::File>>,
    pub buf: String,
    pub symbolic: bool,
    pub ops: u64,
    pub symops: u64,
    pub unsupported: Option<String>,
}

static mut RT: Option<Rt> = None;
pub fn rt() -> &'static mut Rt {
    unsafe {
        if RT.is_none() {
            RT = Some(Rt {
                nodes: vec![],
                map: HashMap::new(),
                sent: 0,
                decided: HashMap::new(),
                out: None,
                inp: None,
                buf: String::new(),
                symbolic: false,
                ops: 0,
                symops: 0,
                unsupported: None,
            });
        }
        RT.as_mut().unwrap()
    }
}

const ID_MAX: u32 = (1 << 22) - 1;
#[inline]
pub fn box64(id: u32) -> f64 {
    f64::from_bits(0x7FF8_0000_0000_0000 | ((id as u64) << 29))
}
#[inline]
pub fn box32(id: u32) -> f32 {
    f32::from_bits(0x7FC0_0000 | id)
}
#[inline]
pub fn id64(x: f64) -> u32 {
    let b = x.to_bits();
    if b & 0xFFF8_0000_0000_0000 == 0x7FF8_0000_0000_0000 {
        ((b >> 29) & (ID_MAX as u64)) as u32
    } else {
        0
    }
}
#[inline]
pub fn id32(x: f32) -> u32 {
    let b = x.to_bits();
    if b & 0xFFC0_0000 == 0x7FC0_0000 {
        b & ID_MAX
    } else {
        0
    }
}

impl Rt {
    pub fn reset(&mut self) {
        self.nodes.clear();
        self.nodes.push(N::False); // id 0 unused
        self.map.clear();
        self.sent = 1;
        self.decided.clear();
        self.unsupported = None;
        self.ops = 0;
        self.symops = 0;
    }
    pub fn mk(&mut self, n: N) -> u32 {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let i = self.nodes.len() as u32;
        if i >= ID_MAX {
            self.unsupported = Some("expression table full".into());
            panic!("expression table full");
        }
        self.nodes.push(n);
        self.map.insert(n, i);
        i
    }
    pub fn of(&mut self, x: f64) -> u32 {
        let i = id64(x);
        if i != 0 {
            return i;
        }
        let x = if x == 0.0 { 0.0 } else { x };
        self.mk(N::Const(x.to_bits()))
    }
    fn flush(&mut self) {
        use std::fmt::Write as _;
        while self.sent < self.nodes.len() {
            let i = self.sent;
            let n = self.nodes[i];
            let b = &mut self.buf;
            match n {
                N::Const(v) => writeln!(b, "N c {}", v),
                N::Var(v) => writeln!(b, "N v {}", v),
                N::Add(x, y) => writeln!(b, "N + {} {}", x, y),
                N::Sub(x, y) => writeln!(b, "N - {} {}", x, y),
                N::Mul(x, y) => writeln!(b, "N * {} {}", x, y),
                N::Div(x, y) => writeln!(b, "N / {} {}", x, y),
                N::Rem(x, y) => writeln!(b, "N % {} {}", x, y),
                N::Un(k, x) => writeln!(b, "N u {} {}", k, x),
                N::Bin(k, x, y) => writeln!(b, "N b {} {} {}", k, x, y),
                N::Sel(k, a, c, x, y) => writeln!(b, "N s {} {} {} {} {}", k, a, c, x, y),
                N::Bad(x) => writeln!(b, "N x {}", x),
                N::Cmp(k, x, y) => writeln!(b, "N C {} {} {}", k, x, y),
                N::And(x, y) => writeln!(b, "N & {} {}", x, y),
                N::Or(x, y) => writeln!(b, "N | {} {}", x, y),
                N::Not(x) => writeln!(b, "N ! {}", x),
                N::True => writeln!(b, "N T"),
                N::False => writeln!(b, "N F"),
            }
            .unwrap();
            self.sent += 1;
        }
    }
    pub fn send(&mut self, line: &str) {
        self.flush();
        self.buf.push_str(line);
        self.buf.push('\n');
        if self.buf.len() > 1 << 16 {
            self.push_out();
        }
    }
    fn push_out(&mut self) {
        if let Some(o) = self.out.as_mut() {
            o.write_all(self.buf.as_bytes()).unwrap();
            o.flush().unwrap();
        }
        self.buf.clear();
    }
    pub fn sync(&mut self) {
        self.push_out();
    }
    pub fn ask(&mut self, line: &str) -> String {
        self.send(line);
        self.push_out();
        let mut s = String::new();
        self.inp.as_mut().expect("no driver").read_line(&mut s).unwrap();
        if s.is_empty() {
            std::process::exit(3);
        }
        s.trim().to_string()
    }
    pub fn branch(&mut self, p: u8, a: u32, b: u32) -> bool {
        if let Some(&r) = self.decided.get(&(p, a, b)) {
            return r;
        }
        let c = self.mk(N::Cmp(p, a, b));
        let r = self.ask(&format!("B {}", c));
        let r = match r.as_str() {
            "0" => false,
            "1" => true,
            _ => {
                std::panic::panic_any(Abort);
            }
        };
        self.decided.insert((p, a, b), r);
        r
    }
    fn bad(&mut self, why: u32) -> u32 {
        self.mk(N::Bad(why))
    }
}
pub struct Abort;

fn cmp_native(p: u32, a: f64, b: f64) -> bool {
    let un = a.is_nan() || b.is_nan();
    match p {
        0 => false,
        1 => a == b,
        2 => a > b,
        3 => a >= b,
        4 => a < b,
        5 => a <= b,
        6 => !un && a != b,
        7 => !un,
        8 => un,
        9 => un || a == b,
        10 => un || a > b,
        11 => un || a >= b,
        12 => un || a < b,
        13 => un || a <= b,
        14 => a != b,
        _ => true,
    }
}

/// symbolic comparison: Ok(bool) when it is decided, Err((pred,a,b)) otherwise
fn cmp_pre(p: u32, a: f64, b: f64) -> Result<bool, (u8, u32, u32)> {
    let (ia, ib) = (id64(a), id64(b));
    if ia == 0 && ib == 0 {
        return Ok(cmp_native(p, a, b));
    }
    let r = rt();
    r.symops += 1;
    if ia == ib {
        return Ok(matches!(p, 1 | 3 | 5 | 7 | 9 | 11 | 13 | 15));
    }
    // one side concrete and not finite: symbols are finite numbers
    if ia == 0 && !a.is_finite() {
        return Ok(cmp_native(p, a, 0.0));
    }
    if ib == 0 && !b.is_finite() {
        return Ok(cmp_native(p, 0.0, b));
    }
    let q = match p {
        0 => return Ok(false),
        7 => return Ok(true),
        8 => return Ok(false),
        15 => return Ok(true),
        9 => 1,
        10 => 2,
        11 => 3,
        12 => 4,
        13 => 5,
        14 => 6,
        x => x,
    };
    let (na, nb) = (r.of(a), r.of(b));
    if matches!(r.nodes[na as usize], N::Bad(_)) || matches!(r.nodes[nb as usize], N::Bad(_)) {
        r.unsupported = Some("comparison of an unsupported term".into());
    }
    // normal form: only ==, <, <= , and their negations
    Err((q as u8, na, nb))
}

pub fn sym_cmp(p: u32, a: f64, b: f64) -> bool {
    match cmp_pre(p, a, b) {
        Ok(r) => r,
        Err((q, x, y)) => match q {
            2 => rt().branch(4, y, x),
            3 => !rt().branch(4, x, y),
            5 => !rt().branch(4, y, x),
            6 => !eqb(x, y),
            1 => eqb(x, y),
            _ => rt().branch(q, x, y),
        },
    }
}
fn eqb(x: u32, y: u32) -> bool {
    let (x, y) = if x < y { (x, y) } else { (y, x) };
    rt().branch(1, x, y)
}

pub fn sym_sel(p: u32, a: f64, b: f64, x: f64, y: f64) -> f64 {
    match cmp_pre(p, a, b) {
        Ok(r) => {
            if r {
                x
            } else {
                y
            }
        }
        Err((q, na, nb)) => {
            let r = rt();
            let (q, na, nb, x, y) = match q {
                2 => (4u8, nb, na, x, y),
                3 => (4, na, nb, y, x),
                5 => (4, nb, na, y, x),
                6 => (1, na, nb, y, x),
                _ => (q, na, nb, x, y),
            };
            let (na, nb) = if q == 1 && na > nb { (nb, na) } else { (na, nb) };
            if let Some(&d) = r.decided.get(&(q, na, nb)) {
                return if d { x } else { y };
            }
            if x.to_bits() == y.to_bits() {
                return x;
            }
            if (id64(x) == 0 && !x.is_finite()) || (id64(y) == 0 && !y.is_finite()) {
                // infinities are not terms: split the path instead
                return if rt().branch(q, na, nb) { x } else { y };
            }
            let (nx, ny) = (r.of(x), r.of(y));
            if nx == ny {
                return x;
            }
            let id = r.mk(N::Sel(q, na, nb, nx, ny));
            box64(id)
        }
    }
}

pub fn add(a: f64, b: f64) -> f64 {
    let (ia, ib) = (id64(a), id64(b));
    if ia == 0 && ib == 0 {
        return a + b;
    }
    let r = rt();
    r.symops += 1;
    if ia == 0 {
        if a == 0.0 {
            return b;
        }
        if !a.is_finite() {
            return a;
        }
    }
    if ib == 0 {
        if b == 0.0 {
            return a;
        }
        if !b.is_finite() {
            return b;
        }
    }
    let (x, y) = (r.of(a), r.of(b));
    let (x, y) = if x <= y { (x, y) } else { (y, x) };
    box64(r.mk(N::Add(x, y)))
}
pub fn sub(a: f64, b: f64) -> f64 {
    let (ia, ib) = (id64(a), id64(b));
    if ia == 0 && ib == 0 {
        return a - b;
    }
    let r = rt();
    r.symops += 1;
    if ia == ib {
        return 0.0;
    }
    if ia == 0 {
        if a == 0.0 {
            return neg(b);
        }
        if !a.is_finite() {
            return a;
        }
    }
    if ib == 0 {
        if b == 0.0 {
            return a;
        }
        if !b.is_finite() {
            return -b;
        }
    }
    let (x, y) = (r.of(a), r.of(b));
    box64(r.mk(N::Sub(x, y)))
}
pub fn neg(a: f64) -> f64 {
    let ia = id64(a);
    if ia == 0 {
        return -a;
    }
    let r = rt();
    r.symops += 1;
    if let N::Un(0, x) = r.nodes[ia as usize] {
        return box64(x);
    }
    box64(r.mk(N::Un(0, ia)))
}
pub fn mul(a: f64, b: f64) -> f64 {
    let (ia, ib) = (id64(a), id64(b));
    if ia == 0 && ib == 0 {
        return a * b;
    }
    let r = rt();
    r.symops += 1;
    for (i, v, o) in [(ia, a, b), (ib, b, a)] {
        if i == 0 {
            if v == 0.0 {
                return 0.0;
            }
            if v == 1.0 {
                return o;
            }
            if v == -1.0 {
                return neg(o);
            }
            if v.is_nan() {
                return v;
            }
            if v.is_infinite() {
                return box64(r.bad(1));
            }
        }
    }
    let (x, y) = (r.of(a), r.of(b));
    let (x, y) = if x <= y { (x, y) } else { (y, x) };
    box64(r.mk(N::Mul(x, y)))
}
pub fn div(a: f64, b: f64) -> f64 {
    let (ia, ib) = (id64(a), id64(b));
    if ia == 0 && ib == 0 {
        return a / b;
    }
    let r = rt();
    r.symops += 1;
    if ia == 0 {
        if a == 0.0 {
            return 0.0;
        }
        if a.is_nan() {
            return a;
        }
        if a.is_infinite() {
            return box64(r.bad(2));
        }
    }
    if ib == 0 {
        if b == 1.0 {
            return a;
        }
        if b == 0.0 {
            return box64(r.bad(3));
        }
        if b.is_nan() {
            return b;
        }
        if b.is_infinite() {
            return 0.0;
        }
    }
    let (x, y) = (r.of(a), r.of(b));
    box64(r.mk(N::Div(x, y)))
}
pub fn rem(a: f64, b: f64) -> f64 {
    if id64(a) == 0 && id64(b) == 0 {
        return a % b;
    }
    // inside one period the remainder is the operand itself
    // (and in the next ones a shifted operand)
    if id64(b) == 0 && b > 0.0 {
        for k in 0..4 {
            let e = b * (k + 1) as f64;
            if sym_cmp(4, a, e) && sym_cmp(2, a, -e) {
                return match k {
                    0 => a,
                    _ if sym_cmp(4, a, 0.0) => add(a, b * k as f64),
                    _ => sub(a, b * k as f64),
                };
            }
        }
    }
    let r = rt();
    r.symops += 1;
    let (x, y) = (r.of(a), r.of(b));
    box64(r.mk(N::Rem(x, y)))
}
pub fn round_even(x: f64) -> f64 {
    x.round_ties_even()
}
extern "C" {
    fn erf(x: f64) -> f64;
    fn erfc(x: f64) -> f64;
}
pub fn un_native(k: u32, x: f64) -> f64 {
    match k {
        0 => -x,
        1 => x.abs(),
        2 => x.sqrt(),
        3 => x.exp(),
        4 => x.exp2(),
        5 => x.ln(),
        6 => x.log2(),
        7 => x.log10(),
        8 => x.sin(),
        9 => x.cos(),
        10 => x.tan(),
        11 => x.asin(),
        12 => x.acos(),
        13 => x.atan(),
        14 => x.sinh(),
        15 => x.cosh(),
        16 => x.tanh(),
        17 => x.asinh(),
        18 => x.acosh(),
        19 => x.atanh(),
        20 => unsafe { erf(x) },
        21 => x.floor(),
        22 => x.ceil(),
        23 => x.round(),
        24 => x.trunc(),
        25 => x.exp_m1(),
        26 => x.ln_1p(),
        27 => x.cbrt(),
        28 => 10f64.powf(x),
        29 => round_even(x),
        30 => unsafe { erfc(x) },
        _ => panic!("unary {}", k),
    }
}
pub fn un(k: u32, x: f64) -> f64 {
    let i = id64(x);
    if i == 0 {
        return un_native(k, x);
    }
    if k == 0 {
        return neg(x);
    }
    let r = rt();
    r.symops += 1;
    box64(r.mk(N::Un(k as u8, i)))
}
pub fn bin(k: u32, x: f64, y: f64) -> f64 {
    if id64(x) == 0 && id64(y) == 0 {
        return match k {
            1 => x.powf(y),
            2 => x.max(y),
            3 => x.min(y),
            4 => x.copysign(y),
            5 => x % y,
            6 => x.atan2(y),
            7 => x.hypot(y),
            _ => panic!("binary {}", k),
        };
    }
    match k {
        2 => return sym_sel(4, x, y, y, x),
        3 => return sym_sel(4, x, y, x, y),
        5 => return rem(x, y),
        _ => {}
    }
    let r = rt();
    r.symops += 1;
    if k == 1 && id64(y) == 0 {
        if y == 0.0 {
            return 1.0;
        }
        if y == 1.0 {
            return x;
        }
    }
    let (a, b) = (r.of(x), r.of(y));
    box64(r.mk(N::Bin(k as u8, a, b)))
}

// ---- entry points of the instrumented C code ------------------------------
#[inline]
fn w(x: f32) -> f64 {
    x as f64
}
/// f64 result of an f32 operation back to f32 (terms keep their id)
#[inline]
fn n(x: f64) -> f32 {
    let i = id64(x);
    if i != 0 {
        box32(i)
    } else {
        x as f32
    }
}
macro_rules! both {
    ($n32:ident, $n64:ident, $f:ident, $op:tt) => {
        #[no_mangle]
        pub extern "C" fn $n32(a: f32, b: f32) -> f32 {
            if id32(a) == 0 && id32(b) == 0 {
                return a $op b;
            }
            n($f(w(a), w(b)))
        }
        #[no_mangle]
        pub extern "C" fn $n64(a: f64, b: f64) -> f64 {
            $f(a, b)
        }
    };
}
both!(__sym_add_f32, __sym_add_f64, add, +);
both!(__sym_sub_f32, __sym_sub_f64, sub, -);
both!(__sym_mul_f32, __sym_mul_f64, mul, *);
both!(__sym_div_f32, __sym_div_f64, div, /);
both!(__sym_rem_f32, __sym_rem_f64, rem, %);
#[no_mangle]
pub extern "C" fn __sym_un_f32(k: u32, x: f32) -> f32 {
    n(un(k, w(x)))
}
#[no_mangle]
pub extern "C" fn __sym_un_f64(k: u32, x: f64) -> f64 {
    un(k, x)
}
#[no_mangle]
pub extern "C" fn __sym_bin_f32(k: u32, x: f32, y: f32) -> f32 {
    n(bin(k, w(x), w(y)))
}
#[no_mangle]
pub extern "C" fn __sym_bin_f64(k: u32, x: f64, y: f64) -> f64 {
    bin(k, x, y)
}
#[no_mangle]
pub extern "C" fn __sym_cmp_f32(p: u32, x: f32, y: f32) -> u32 {
    sym_cmp(p, w(x), w(y)) as u32
}
#[no_mangle]
pub extern "C" fn __sym_cmp_f64(p: u32, x: f64, y: f64) -> u32 {
    sym_cmp(p, x, y) as u32
}
#[no_mangle]
pub extern "C" fn __sym_sel_f32_f32(p: u32, a: f32, b: f32, x: f32, y: f32) -> f32 {
    n(sym_sel(p, w(a), w(b), w(x), w(y)))
}
#[no_mangle]
pub extern "C" fn __sym_sel_f32_f64(p: u32, a: f32, b: f32, x: f64, y: f64) -> f64 {
    sym_sel(p, w(a), w(b), x, y)
}
#[no_mangle]
pub extern "C" fn __sym_sel_f64_f32(p: u32, a: f64, b: f64, x: f32, y: f32) -> f32 {
    n(sym_sel(p, a, b, w(x), w(y)))
}
#[no_mangle]
pub extern "C" fn __sym_sel_f64_f64(p: u32, a: f64, b: f64, x: f64, y: f64) -> f64 {
    sym_sel(p, a, b, x, y)
}
#[no_mangle]
pub extern "C" fn __sym_trunc(x: f64) -> f32 {
    n(x)
}
#[no_mangle]
pub extern "C" fn __sym_ext(x: f32) -> f64 {
    w(x)
}
#[no_mangle]
pub extern "C" fn __sym_toint_f32(x: f32) {
    if id32(x) != 0 {
        rt().unsupported = Some("conversion of a symbolic float to an integer".into());
    }
}
#[no_mangle]
pub extern "C" fn __sym_toint_f64(x: f64) {
    if id64(x) != 0 {
        rt().unsupported = Some("conversion of a symbolic float to an integer".into());
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sym_pthread_create(
    t: *mut u64,
    _a: *const u8,
    f: extern "C" fn(*mut u8) -> *mut u8,
    arg: *mut u8,
) -> i32 {
    *t = 1;
    f(arg);
    0
}
#[no_mangle]
pub unsafe extern "C" fn __sym_pthread_join(_t: u64, r: *mut *mut u8) -> i32 {
    if !r.is_null() {
        *r = std::ptr::null_mut();
    }
    0
}

// ---- BLAS by definition ----------------------------------------------------
macro_rules! blas {
    ($t:ty, $up:expr, $dn:expr, $gemm:ident, $scal:ident, $copy:ident, $dot:ident, $axpy:ident, $gemv:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $gemm(
            order: i32,
            ta: i32,
            tb: i32,
            m: i32,
            nn: i32,
            k: i32,
            alpha: $t,
            a: *const $t,
            lda: i32,
            b: *const $t,
            ldb: i32,
            beta: $t,
            c: *mut $t,
            ldc: i32,
        ) {
            let idx = |t: bool, ld: i32, i: i32, j: i32| -> isize {
                let (i, j) = if t { (j, i) } else { (i, j) };
                (if order == 101 { i as i64 * ld as i64 + j as i64 } else { j as i64 * ld as i64 + i as i64 }) as isize
            };
            for i in 0..m {
                for j in 0..nn {
                    let mut s = 0.0f64;
                    for p in 0..k {
                        s = add(s, mul($up(*a.offset(idx(ta != 111, lda, i, p))), $up(*b.offset(idx(tb != 111, ldb, p, j)))));
                    }
                    let o = c.offset(idx(false, ldc, i, j));
                    let mut v = mul($up(alpha), s);
                    if beta != 0.0 {
                        v = add(v, mul($up(beta), $up(*o)));
                    }
                    *o = $dn(v);
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $scal(nn: i32, alpha: $t, x: *mut $t, inc: i32) {
            for i in 0..nn as isize {
                let p = x.offset(i * inc as isize);
                *p = $dn(mul($up(alpha), $up(*p)));
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $copy(nn: i32, x: *const $t, ix: i32, y: *mut $t, iy: i32) {
            for i in 0..nn as isize {
                *y.offset(i * iy as isize) = *x.offset(i * ix as isize);
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $dot(nn: i32, x: *const $t, ix: i32, y: *const $t, iy: i32) -> $t {
            let mut s = 0.0;
            for i in 0..nn as isize {
                s = add(s, mul($up(*x.offset(i * ix as isize)), $up(*y.offset(i * iy as isize))));
            }
            $dn(s)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $axpy(nn: i32, alpha: $t, x: *const $t, ix: i32, y: *mut $t, iy: i32) {
            for i in 0..nn as isize {
                let p = y.offset(i * iy as isize);
                *p = $dn(add($up(*p), mul($up(alpha), $up(*x.offset(i * ix as isize)))));
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $gemv(
            order: i32,
            ta: i32,
            m: i32,
            nn: i32,
            alpha: $t,
            a: *const $t,
            lda: i32,
            x: *const $t,
            ix: i32,
            beta: $t,
            y: *mut $t,
            iy: i32,
        ) {
            let t = ta != 111;
            let (rows, cols) = if t { (nn, m) } else { (m, nn) };
            for i in 0..rows {
                let mut s = 0.0;
                for j in 0..cols {
                    let (r, c) = if t { (j, i) } else { (i, j) };
                    let o = if order == 101 { r as isize * lda as isize + c as isize } else { c as isize * lda as isize + r as isize };
                    s = add(s, mul($up(*a.offset(o)), $up(*x.offset(j as isize * ix as isize))));
                }
                let p = y.offset(i as isize * iy as isize);
                let mut v = mul($up(alpha), s);
                if beta != 0.0 {
                    v = add(v, mul($up(beta), $up(*p)));
                }
                *p = $dn(v);
            }
        }
    };
}
fn idf(x: f64) -> f64 {
    x
}
blas!(f32, w, n, cblas_sgemm, cblas_sscal, cblas_scopy, cblas_sdot, cblas_saxpy, cblas_sgemv);
blas!(f64, idf, idf, cblas_dgemm, cblas_dscal, cblas_dcopy, cblas_ddot, cblas_daxpy, cblas_dgemv);
#[no_mangle]
pub extern "C" fn openblas_get_num_threads() -> i32 {
    1
}
#[no_mangle]
pub extern "C" fn openblas_set_num_threads(_: i32) {}
