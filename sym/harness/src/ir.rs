//! Terms, arrays of terms and the context a case runs in.
use crate::rt::{self, box32, box64, id64, rt, N};
use hodu_core::tensor::Tensor;
use std::ops::{Add, Div, Mul, Neg, Sub};

/// a real-valued term (or a plain number)
#[derive(Clone, Copy, Debug)]
pub struct E(pub f64);
pub fn c(x: f64) -> E {
    E(x)
}
impl Add for E {
    type Output = E;
    fn add(self, o: E) -> E {
        E(rt::add(self.0, o.0))
    }
}
impl Sub for E {
    type Output = E;
    fn sub(self, o: E) -> E {
        E(rt::sub(self.0, o.0))
    }
}
impl Mul for E {
    type Output = E;
    fn mul(self, o: E) -> E {
        E(rt::mul(self.0, o.0))
    }
}
impl Div for E {
    type Output = E;
    fn div(self, o: E) -> E {
        E(rt::div(self.0, o.0))
    }
}
impl Neg for E {
    type Output = E;
    fn neg(self) -> E {
        E(rt::neg(self.0))
    }
}
macro_rules! un {
    ($($n:ident $k:expr),*) => { impl E { $(pub fn $n(self) -> E { E(rt::un($k, self.0)) })* } };
}
un!(abs 1, sqrt 2, exp 3, exp2 4, ln 5, log2 6, log10 7, sin 8, cos 9, tan 10, asin 11, acos 12, atan 13, sinh 14, cosh 15, tanh 16,
    asinh 17, acosh 18, atanh 19, erf 20, floor 21, ceil 22, round 23, exp10 28);
impl E {
    pub fn max(self, o: E) -> E {
        E(rt::sym_sel(4, self.0, o.0, o.0, self.0))
    }
    pub fn min(self, o: E) -> E {
        E(rt::sym_sel(4, o.0, self.0, o.0, self.0))
    }
    pub fn pow(self, o: E) -> E {
        E(rt::bin(1, self.0, o.0))
    }
    /// remainder with the sign of the dividend
    pub fn rem(self, o: E) -> E {
        E(rt::rem(self.0, o.0))
    }
    pub fn powi(self, n: i32) -> E {
        if n < 0 {
            return c(1.0) / self.powi(-n);
        }
        let mut r = c(1.0);
        for _ in 0..n {
            r = r * self;
        }
        r
    }
    pub fn id(self) -> u32 {
        rt().of(self.0)
    }
    pub fn is_sym(self) -> bool {
        id64(self.0) != 0
    }
    pub fn lt(self, o: E) -> B {
        B::cmp(4, self, o)
    }
    pub fn le(self, o: E) -> B {
        B::cmp(5, self, o)
    }
    pub fn gt(self, o: E) -> B {
        B::cmp(4, o, self)
    }
    pub fn ge(self, o: E) -> B {
        B::cmp(5, o, self)
    }
    pub fn eq(self, o: E) -> B {
        B::cmp(1, self, o)
    }
    /// if a < b then x else y
    pub fn sel_lt(a: E, b: E, x: E, y: E) -> E {
        E(rt::sym_sel(4, a.0, b.0, x.0, y.0))
    }
    pub fn sel_le(a: E, b: E, x: E, y: E) -> E {
        E(rt::sym_sel(5, a.0, b.0, x.0, y.0))
    }
    pub fn sel_eq(a: E, b: E, x: E, y: E) -> E {
        E(rt::sym_sel(1, a.0, b.0, x.0, y.0))
    }
    pub fn relu(self) -> E {
        E::sel_lt(c(0.0), self, self, c(0.0))
    }
    pub fn sigmoid(self) -> E {
        c(1.0) / (c(1.0) + (-self).exp())
    }
    pub fn sign(self) -> E {
        E::sel_lt(c(0.0), self, c(1.0), E::sel_lt(self, c(0.0), c(-1.0), c(0.0)))
    }
}
impl std::iter::Sum for E {
    fn sum<I: Iterator<Item = E>>(i: I) -> E {
        i.fold(c(0.0), |a, b| a + b)
    }
}

/// a boolean term
#[derive(Clone, Copy, Debug)]
pub enum B {
    K(bool),
    S(u32),
}
impl B {
    fn cmp(p: u8, a: E, b: E) -> B {
        if !a.is_sym() && !b.is_sym() {
            return B::K(match p {
                1 => a.0 == b.0,
                4 => a.0 < b.0,
                _ => a.0 <= b.0,
            });
        }
        if a.0.is_infinite() || b.0.is_infinite() {
            return B::K(rt::sym_cmp(p as u32, a.0, b.0));
        }
        let (x, y) = (a.id(), b.id());
        B::S(rt().mk(N::Cmp(p, x, y)))
    }
    fn id(self) -> u32 {
        match self {
            B::K(true) => rt().mk(N::True),
            B::K(false) => rt().mk(N::False),
            B::S(i) => i,
        }
    }
    pub fn and(self, o: B) -> B {
        match (self, o) {
            (B::K(false), _) | (_, B::K(false)) => B::K(false),
            (B::K(true), x) | (x, B::K(true)) => x,
            (B::S(a), B::S(b)) => B::S(rt().mk(N::And(a, b))),
        }
    }
    pub fn or(self, o: B) -> B {
        match (self, o) {
            (B::K(true), _) | (_, B::K(true)) => B::K(true),
            (B::K(false), x) | (x, B::K(false)) => x,
            (B::S(a), B::S(b)) => B::S(rt().mk(N::Or(a, b))),
        }
    }
    pub fn not(self) -> B {
        match self {
            B::K(b) => B::K(!b),
            B::S(a) => B::S(rt().mk(N::Not(a))),
        }
    }
    pub fn iff(self, b: bool) -> B {
        if b {
            self
        } else {
            self.not()
        }
    }
}

/// dense row-major array of terms
#[derive(Clone, Debug)]
pub struct Arr {
    pub shape: Vec<usize>,
    pub d: Vec<E>,
}
pub fn indices(shape: &[usize]) -> Vec<Vec<usize>> {
    let n: usize = shape.iter().product();
    let mut out = Vec::with_capacity(n);
    let mut ix = vec![0usize; shape.len()];
    for _ in 0..n {
        out.push(ix.clone());
        for k in (0..shape.len()).rev() {
            ix[k] += 1;
            if ix[k] < shape[k] {
                break;
            }
            ix[k] = 0;
        }
    }
    out
}
impl Arr {
    pub fn new(shape: &[usize], d: Vec<E>) -> Arr {
        assert_eq!(shape.iter().product::<usize>(), d.len());
        Arr { shape: shape.to_vec(), d }
    }
    pub fn full(shape: &[usize], v: E) -> Arr {
        Arr { shape: shape.to_vec(), d: vec![v; shape.iter().product()] }
    }
    pub fn gen(shape: &[usize], mut f: impl FnMut(&[usize]) -> E) -> Arr {
        Arr { shape: shape.to_vec(), d: indices(shape).iter().map(|i| f(i)).collect() }
    }
    pub fn lin(&self, ix: &[usize]) -> usize {
        assert_eq!(ix.len(), self.shape.len());
        let mut o = 0;
        for (k, &i) in ix.iter().enumerate() {
            assert!(i < self.shape[k], "reference index {:?} of shape {:?}", ix, self.shape);
            o = o * self.shape[k] + i;
        }
        o
    }
    pub fn at(&self, ix: &[usize]) -> E {
        self.d[self.lin(ix)]
    }
    pub fn set(&mut self, ix: &[usize], v: E) {
        let o = self.lin(ix);
        self.d[o] = v;
    }
    pub fn map(&self, f: impl Fn(E) -> E) -> Arr {
        Arr { shape: self.shape.clone(), d: self.d.iter().map(|&x| f(x)).collect() }
    }
    pub fn zip(&self, o: &Arr, f: impl Fn(E, E) -> E) -> Arr {
        let s = bshape(&self.shape, &o.shape);
        Arr::gen(&s, |ix| f(self.bat(ix), o.bat(ix)))
    }
    /// element at a (longer) broadcast index
    pub fn bat(&self, ix: &[usize]) -> E {
        let off = ix.len() - self.shape.len();
        let l: Vec<usize> = (0..self.shape.len()).map(|k| if self.shape[k] == 1 { 0 } else { ix[k + off] }).collect();
        self.at(&l)
    }
    /// element of a broadcast batch: all but the last `tail` indices follow broadcasting
    pub fn bat_tail(&self, ix: &[usize], tail: usize) -> E {
        let off = ix.len() - self.shape.len();
        let n = self.shape.len();
        let j: Vec<usize> = (0..n).map(|k| if k < n - tail && self.shape[k] == 1 { 0 } else { ix[off + k] }).collect();
        self.at(&j)
    }
    pub fn reshape(&self, s: &[usize]) -> Arr {
        Arr::new(s, self.d.clone())
    }
    pub fn permute(&self, ax: &[usize]) -> Arr {
        let s: Vec<usize> = ax.iter().map(|&a| self.shape[a]).collect();
        Arr::gen(&s, |ix| {
            let mut o = vec![0; ix.len()];
            for (k, &a) in ax.iter().enumerate() {
                o[a] = ix[k];
            }
            self.at(&o)
        })
    }
    pub fn add(&self, o: &Arr) -> Arr {
        self.zip(o, |a, b| a + b)
    }
    pub fn sub(&self, o: &Arr) -> Arr {
        self.zip(o, |a, b| a - b)
    }
    pub fn mul(&self, o: &Arr) -> Arr {
        self.zip(o, |a, b| a * b)
    }
    pub fn div(&self, o: &Arr) -> Arr {
        self.zip(o, |a, b| a / b)
    }
    pub fn scale(&self, k: f64) -> Arr {
        self.map(|x| x * c(k))
    }
    pub fn matmul(&self, o: &Arr) -> Arr {
        let (m, k) = (self.shape[self.shape.len() - 2], self.shape[self.shape.len() - 1]);
        let n = o.shape[o.shape.len() - 1];
        assert_eq!(k, o.shape[o.shape.len() - 2]);
        let bs = bshape(&self.shape[..self.shape.len() - 2], &o.shape[..o.shape.len() - 2]);
        let mut s = bs.clone();
        s.push(m);
        s.push(n);
        let nb = bs.len();
        Arr::gen(&s, |ix| {
            (0..k)
                .map(|p| {
                    let mut a = ix[..nb].to_vec();
                    a.extend([ix[nb], p]);
                    let mut b = ix[..nb].to_vec();
                    b.extend([p, ix[nb + 1]]);
                    self.bat(&a) * o.bat(&b)
                })
                .sum()
        })
    }
    pub fn t(&self) -> Arr {
        let n = self.shape.len();
        let mut ax: Vec<usize> = (0..n).collect();
        ax.swap(n - 1, n - 2);
        self.permute(&ax)
    }
    pub fn sum(&self, axes: &[usize], keep: bool) -> Arr {
        self.reduce(axes, keep, |v| v.iter().cloned().sum())
    }
    pub fn mean(&self, axes: &[usize], keep: bool) -> Arr {
        self.reduce(axes, keep, |v| v.iter().cloned().sum::<E>() / c(v.len() as f64))
    }
    pub fn reduce(&self, axes: &[usize], keep: bool, f: impl Fn(&[E]) -> E) -> Arr {
        let axes: Vec<usize> = if axes.is_empty() { (0..self.shape.len()).collect() } else { axes.to_vec() };
        let ks: Vec<usize> = (0..self.shape.len()).map(|k| if axes.contains(&k) { 1 } else { self.shape[k] }).collect();
        let rs: Vec<usize> = (0..self.shape.len()).map(|k| if axes.contains(&k) { self.shape[k] } else { 1 }).collect();
        let r = Arr::gen(&ks, |ix| {
            let v: Vec<E> = indices(&rs).iter().map(|r| self.at(&ix.iter().zip(r).map(|(a, b)| a + b).collect::<Vec<_>>())).collect();
            f(&v)
        });
        if keep {
            r
        } else {
            let s: Vec<usize> = (0..self.shape.len()).filter(|k| !axes.contains(k)).map(|k| self.shape[k]).collect();
            r.reshape(&s)
        }
    }
    pub fn sum_all(&self) -> E {
        self.d.iter().cloned().sum()
    }
}
pub fn bshape(a: &[usize], b: &[usize]) -> Vec<usize> {
    let n = a.len().max(b.len());
    (0..n)
        .map(|k| {
            let x = if k + a.len() >= n { a[k + a.len() - n] } else { 1 };
            let y = if k + b.len() >= n { b[k + b.len() - n] } else { 1 };
            if x == 1 {
                y
            } else {
                assert!(y == 1 || x == y);
                x
            }
        })
        .collect()
}

pub type R = Result<(), String>;
pub trait S<T> {
    fn s(self) -> Result<T, String>;
}
impl<T, X: std::fmt::Display> S<T> for Result<T, X> {
    fn s(self) -> Result<T, String> {
        self.map_err(|e| format!("{}", e))
    }
}

pub struct Cx {
    pub values: Option<Vec<f64>>, // concrete replay
    pub nvars: usize,
    pub f64: bool, // make f64 instead of f32 tensors
}
impl Cx {
    pub fn var(&mut self, lo: f64, hi: f64) -> E {
        let i = self.nvars;
        self.nvars += 1;
        match &self.values {
            Some(v) => E(v.get(i).copied().unwrap_or((lo + hi) / 2.0) as f32 as f64),
            None => {
                let id = rt().mk(N::Var(i as u32));
                rt().send(&format!("V {} {} {}", id, lo, hi));
                E(box64(id))
            }
        }
    }
    pub fn arr(&mut self, shape: &[usize], lo: f64, hi: f64) -> Arr {
        let n: usize = shape.iter().product();
        let d = (0..n).map(|_| self.var(lo, hi)).collect();
        Arr::new(shape, d)
    }
    /// fresh symbolic f32 tensor and its terms
    pub fn tensor(&mut self, shape: &[usize]) -> (Tensor, Arr) {
        self.tensor_in(shape, -2.0, 2.0)
    }
    pub fn tensor_in(&mut self, shape: &[usize], lo: f64, hi: f64) -> (Tensor, Arr) {
        let a = self.arr(shape, lo, hi);
        (self.mk(&a), a)
    }
    pub fn mk(&self, a: &Arr) -> Tensor {
        if self.f64 {
            to_t64(a)
        } else {
            to_t(a)
        }
    }
    /// boolean results: the path taken decides the value, the path condition must agree with the definition
    pub fn eq_b(&mut self, label: &str, got: &Tensor, shape: &[usize], want: &[B]) -> R {
        if got.shape().to_vec() != shape {
            self.fail(label, &format!("shape {:?}, expected {:?}", got.shape().to_vec(), shape));
            return Ok(());
        }
        let g = from_t(got)?;
        let mut all = B::K(true);
        for (g, w) in g.d.iter().zip(want) {
            if g.0 != 0.0 && g.0 != 1.0 {
                self.fail(label, &format!("truth value {}", g.0));
                return Ok(());
            }
            all = all.and(w.iff(g.0 == 1.0));
        }
        self.assert(label, all);
        Ok(())
    }
    pub fn differs(&mut self, a: E, b: f64) {
        let q = a.eq(c(b)).not();
        self.assume(q);
    }
    pub fn assume(&mut self, b: B) {
        if self.values.is_none() {
            let i = b.id();
            rt().send(&format!("A {}", i));
        }
    }
    pub fn eq_e(&mut self, label: &str, got: &[E], want: &[E]) {
        if got.len() != want.len() {
            self.fail(label, &format!("{} elements, expected {}", got.len(), want.len()));
            return;
        }
        if self.values.is_some() {
            let g: Vec<String> = got.iter().map(|x| format!("{:e}", x.0)).collect();
            rt().send(&format!("R {} {}", label, g.join(" ")));
            return;
        }
        // hash-consed: the very same term on both sides
        if got.len() > 2000 && got.iter().zip(want).all(|(a, b)| a.id() == b.id()) {
            rt().send(&format!("P {} {}", label, got.len()));
            return;
        }
        let g: Vec<String> = got.iter().map(|x| x.id().to_string()).collect();
        let w: Vec<String> = want.iter().map(|x| x.id().to_string()).collect();
        rt().send(&format!("Q {} eq {} {} {}", label, g.len(), g.join(" "), w.join(" ")));
    }
    pub fn eq(&mut self, label: &str, got: &Tensor, want: &Arr) -> R {
        let shape = got.shape().to_vec();
        if shape != want.shape {
            self.fail(label, &format!("shape {:?}, expected {:?}", shape, want.shape));
            return Ok(());
        }
        let g = from_t(got)?;
        self.eq_e(label, &g.d, &want.d);
        Ok(())
    }
    /// d loss / d wrt == got, by independent symbolic differentiation of `loss`
    pub fn grad_e(&mut self, label: &str, loss: E, wrt: &[E], got: &[E]) {
        if wrt.len() != got.len() {
            self.fail(label, &format!("gradient has {} elements, expected {}", got.len(), wrt.len()));
            return;
        }
        if self.values.is_some() {
            let g: Vec<String> = got.iter().map(|x| format!("{:e}", x.0)).collect();
            rt().send(&format!("R {} {}", label, g.join(" ")));
            return;
        }
        let g: Vec<String> = got.iter().map(|x| x.id().to_string()).collect();
        let w: Vec<String> = wrt.iter().map(|x| x.id().to_string()).collect();
        let l = loss.id();
        rt().send(&format!("G {} {} {} {} {}", label, l, w.len(), w.join(" "), g.join(" ")));
    }
    /// d loss / d x for leaf tensor t with terms a
    pub fn grad(&mut self, label: &str, loss: E, t: &Tensor, a: &Arr) -> R {
        let g = t.grad().s()?;
        if g.shape().to_vec() != a.shape {
            self.fail(label, &format!("gradient shape {:?}, expected {:?}", g.shape().to_vec(), a.shape));
            return Ok(());
        }
        let g = from_t(&g)?;
        self.grad_e(label, loss, &a.d, &g.d);
        Ok(())
    }
    pub fn assert(&mut self, label: &str, b: B) {
        if self.values.is_some() {
            if let B::K(false) = b {
                self.fail(label, "assertion is false");
            } else {
                rt().send(&format!("P {}", label));
            }
            return;
        }
        let i = b.id();
        rt().send(&format!("Q {} assert {}", label, i));
    }
    /// concrete condition that must hold on this path
    pub fn check(&mut self, label: &str, ok: bool, msg: impl AsRef<str>) {
        if ok {
            rt().send(&format!("P {}", label));
        } else {
            self.fail(label, msg.as_ref());
        }
    }
    pub fn fail(&mut self, label: &str, msg: &str) {
        rt().send(&format!("F {} {}", label, msg.replace('\n', " ")));
    }
}

pub fn f32s(a: &Arr) -> Vec<f32> {
    a.d.iter()
        .map(|x| {
            let i = id64(x.0);
            if i != 0 {
                box32(i)
            } else {
                x.0 as f32
            }
        })
        .collect()
}
pub fn to_t(a: &Arr) -> Tensor {
    Tensor::from_slice(f32s(a), &a.shape[..]).expect("input tensor")
}
pub fn to_t64(a: &Arr) -> Tensor {
    let v: Vec<f64> = a.d.iter().map(|x| x.0).collect();
    Tensor::from_slice(v, &a.shape[..]).expect("input tensor")
}
pub fn from_t(t: &Tensor) -> Result<Arr, String> {
    use hodu_core::types::DType;
    let shape = t.shape().to_vec();
    let d: Vec<E> = match t.dtype() {
        DType::F32 => t.to_flatten_vec::<f32>().s()?.iter().map(|&x| E(x as f64)).collect(),
        DType::F64 => t.to_flatten_vec::<f64>().s()?.iter().map(|&x| E(x)).collect(),
        DType::I32 => t.to_flatten_vec::<i32>().s()?.iter().map(|&x| E(x as f64)).collect(),
        DType::I64 => t.to_flatten_vec::<i64>().s()?.iter().map(|&x| E(x as f64)).collect(),
        DType::U8 => t.to_flatten_vec::<u8>().s()?.iter().map(|&x| E(x as f64)).collect(),
        DType::I8 => t.to_flatten_vec::<i8>().s()?.iter().map(|&x| E(x as f64)).collect(),
        DType::U32 => t.to_flatten_vec::<u32>().s()?.iter().map(|&x| E(x as f64)).collect(),
        DType::BOOL => t.to_flatten_vec::<bool>().s()?.iter().map(|&x| E(x as u8 as f64)).collect(),
        o => return Err(format!("result has dtype {:?}", o)),
    };
    if shape.iter().product::<usize>() != d.len() {
        return Err(format!("shape {:?} but {} elements", shape, d.len()));
    }
    Ok(Arr { shape, d })
}

pub struct Case {
    pub name: String,
    pub f: Box<dyn Fn(&mut Cx) -> R>,
}
#[derive(Default)]
pub struct Cases {
    pub v: Vec<Case>,
    pub thorough: bool,
}
impl Cases {
    pub fn add(&mut self, name: impl Into<String>, f: impl Fn(&mut Cx) -> R + 'static) {
        let name = name.into().replace(' ', "");
        self.v.push(Case { name, f: Box::new(f) });
    }
}
