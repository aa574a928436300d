//! shared helpers of the cases: layouts to feed operations with, view programs
use crate::ir::*;
use hodu_core::tensor::Tensor;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.0 >> 33
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
}

/// memory layouts an operand of a given shape can have
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lay {
    Plain,
    /// transposed storage (last two axes)
    T,
    /// every second element of the last axis, with an offset
    Step,
    /// a window in axis 0 (contiguous strides, non-zero offset)
    Off,
    /// broadcast along axis 0 (stride 0)
    Bc,
}
pub const LAYS: [Lay; 5] = [Lay::Plain, Lay::T, Lay::Step, Lay::Off, Lay::Bc];

/// a symbolic leaf tensor and a view of it of the wanted shape and layout
pub struct In {
    pub leaf: Tensor,
    pub la: Arr,
    pub t: Tensor,
    pub a: Arr,
}
pub fn input(x: &mut Cx, shape: &[usize], l: Lay, lo: f64, hi: f64, grad: bool) -> Result<In, String> {
    let n = shape.len();
    let mut s = shape.to_vec();
    match l {
        Lay::T if n >= 2 => s.swap(n - 1, n - 2),
        Lay::Step if n >= 1 => s[n - 1] = s[n - 1] * 2 + 1,
        Lay::Off if n >= 1 => s[0] += 2,
        Lay::Bc if n >= 1 => s[0] = 1,
        _ => {}
    }
    let (leaf, la) = x.tensor_in(&s, lo, hi);
    if grad {
        leaf.set_requires_grad(true).s()?;
    }
    let (t, a) = match l {
        Lay::T if n >= 2 => (leaf.transpose(-1, -2).s()?, la.t()),
        Lay::Step if n >= 1 => (
            leaf.slice((n - 1) as i32, 1, None, 2).s()?,
            Arr::gen(shape, |ix| {
                let mut j = ix.to_vec();
                j[n - 1] = 1 + 2 * ix[n - 1];
                la.at(&j)
            }),
        ),
        Lay::Off if n >= 1 => (
            leaf.slice(0, 1, Some(1 + shape[0] as i32), 1).s()?,
            Arr::gen(shape, |ix| {
                let mut j = ix.to_vec();
                j[0] += 1;
                la.at(&j)
            }),
        ),
        Lay::Bc if n >= 1 => (leaf.broadcast(shape).s()?, Arr::gen(shape, |ix| la.bat(ix))),
        _ => (leaf.clone(), la.clone()),
    };
    Ok(In { leaf, la, t, a })
}
/// a symbolic tensor of `shape` stored with layout `l`
pub fn laid(x: &mut Cx, shape: &[usize], l: Lay, lo: f64, hi: f64) -> Result<(Tensor, Arr), String> {
    let i = input(x, shape, l, lo, hi, false)?;
    Ok((i.t, i.a))
}
/// the value of `out`, and the gradient of a weighted sum of it with respect to every leaf
pub fn grads(x: &mut Cx, label: &str, ins: &[&In], out: &Tensor, want: &Arr) -> R {
    x.eq(&format!("{}:value", label), out, want)?;
    let (w, wa) = x.tensor_in(&want.shape, 0.5, 2.0);
    let loss = out.mul(&w).s()?.sum_all().s()?;
    loss.backward().s()?;
    let l = want.mul(&wa).sum_all();
    for (k, i) in ins.iter().enumerate() {
        x.grad(&format!("{}:grad{}", label, k), l, &i.leaf, &i.la)?;
    }
    Ok(())
}

#[derive(Clone, Debug)]
pub enum V {
    Reshape(Vec<usize>),
    Flatten,
    Squeeze(Vec<i32>),
    Unsqueeze(i32),
    Transpose(i32, i32),
    Permute(Vec<i32>),
    Broadcast(Vec<usize>),
    Slice(i32, i32, Option<i32>, i32),
    Repeat(Vec<usize>),
    Contig,
    AddC,
}
fn norm(d: i32, n: usize) -> usize {
    if d < 0 {
        (n as i32 + d) as usize
    } else {
        d as usize
    }
}
pub fn apply(t: &Tensor, v: &V) -> Result<Tensor, String> {
    match v {
        V::Reshape(s) => t.reshape(&s[..]).s(),
        V::Flatten => t.flatten().s(),
        V::Squeeze(d) => t.squeeze(d).s(),
        V::Unsqueeze(d) => t.unsqueeze(*d).s(),
        V::Transpose(a, b) => t.transpose(*a, *b).s(),
        V::Permute(p) => t.permute(p).s(),
        V::Broadcast(s) => t.broadcast(&s[..]).s(),
        V::Slice(d, a, e, st) => t.slice(*d, *a, *e, *st).s(),
        V::Repeat(r) => t.repeat(r).s(),
        V::Contig => t.contiguous().s(),
        V::AddC => t.add_scalar(1.0f32).s(),
    }
    .map_err(|e| format!("{:?}: {}", v, e))
}
pub fn reference(a: &Arr, v: &V) -> Arr {
    let n = a.shape.len();
    match v {
        V::Reshape(s) => a.reshape(s),
        V::Flatten => a.reshape(&[a.d.len()]),
        V::Squeeze(d) => {
            let d: Vec<usize> = d.iter().map(|&d| norm(d, n)).collect();
            let s: Vec<usize> =
                (0..n).filter(|k| if d.is_empty() { a.shape[*k] != 1 } else { !d.contains(k) }).map(|k| a.shape[k]).collect();
            a.reshape(&s)
        }
        V::Unsqueeze(d) => {
            let k = if *d < 0 { (n as i32 + 1 + d) as usize } else { *d as usize };
            let mut s = a.shape.clone();
            s.insert(k, 1);
            a.reshape(&s)
        }
        V::Transpose(p, q) => {
            let mut ax: Vec<usize> = (0..n).collect();
            ax.swap(norm(*p, n), norm(*q, n));
            a.permute(&ax)
        }
        V::Permute(p) => a.permute(&p.iter().map(|&d| norm(d, n)).collect::<Vec<_>>()),
        V::Broadcast(s) => Arr::gen(s, |ix| a.bat(ix)),
        V::Slice(d, st, e, step) => {
            let d = norm(*d, n);
            let sz = a.shape[d] as i64;
            let step = *step as i64;
            let cl = |v: i64, lo: i64, hi: i64| v.max(lo).min(hi);
            let s0 = *st as i64;
            let s0 = if s0 < 0 { s0 + sz } else { s0 };
            let mut idx = vec![];
            if step > 0 {
                let e0 = e.map(|e| e as i64).map(|e| if e < 0 { e + sz } else { e }).unwrap_or(sz);
                let (mut i, e0) = (cl(s0, 0, sz), cl(e0, 0, sz));
                while i < e0 {
                    idx.push(i as usize);
                    i += step;
                }
            } else {
                let e0 = e.map(|e| e as i64).map(|e| if e < 0 { e + sz } else { e }).unwrap_or(-1);
                let (mut i, e0) = (cl(s0, -1, sz - 1), cl(e0, -1, sz - 1));
                while i > e0 {
                    idx.push(i as usize);
                    i += step;
                }
            }
            let mut s = a.shape.clone();
            s[d] = idx.len();
            Arr::gen(&s, |ix| {
                let mut j = ix.to_vec();
                j[d] = idx[ix[d]];
                a.at(&j)
            })
        }
        V::Repeat(r) => {
            let s: Vec<usize> = a.shape.iter().zip(r).map(|(a, b)| a * b).collect();
            Arr::gen(&s, |ix| a.at(&ix.iter().zip(&a.shape).map(|(i, n)| i % n).collect::<Vec<_>>()))
        }
        V::Contig => a.clone(),
        V::AddC => a.map(|x| x + c(1.0)),
    }
}
/// factorisations of n into up to 3 factors
pub fn shapes_of(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![n]];
    for a in 1..=n {
        if n % a == 0 {
            out.push(vec![a, n / a]);
            for b in 1..=n / a {
                if (n / a) % b == 0 {
                    out.push(vec![a, b, n / a / b]);
                }
            }
        }
    }
    out
}
/// a random valid view operation for shape s
pub fn random_view(r: &mut Rng, s: &[usize]) -> V {
    let n = s.len();
    let size: usize = s.iter().product();
    loop {
        let neg = |r: &mut Rng, d: usize| if r.below(2) == 0 { d as i32 } else { d as i32 - n as i32 };
        match r.below(10) {
            0 => {
                let o = shapes_of(size);
                return V::Reshape(o[r.below(o.len())].clone());
            }
            1 => return V::Flatten,
            2 => {
                let ones: Vec<usize> = (0..n).filter(|&k| s[k] == 1).collect();
                if ones.is_empty() || r.below(3) == 0 {
                    return V::Squeeze(vec![]);
                }
                let k = ones[r.below(ones.len())];
                return V::Squeeze(vec![neg(r, k)]);
            }
            3 if n < 5 => return V::Unsqueeze(r.range(-(n as i64) - 1, n as i64) as i32),
            4 if n >= 2 => {
                let (a, b) = (r.below(n), r.below(n));
                return V::Transpose(neg(r, a), neg(r, b));
            }
            5 if n >= 2 => {
                let mut p: Vec<usize> = (0..n).collect();
                for i in (1..n).rev() {
                    p.swap(i, r.below(i + 1));
                }
                return V::Permute(p.into_iter().map(|d| neg(r, d)).collect());
            }
            6 if n < 5 && size <= 12 => {
                let mut t: Vec<usize> = s.iter().map(|&d| if d == 1 { r.below(3) + 1 } else { d }).collect();
                if r.below(2) == 0 {
                    t.insert(0, r.below(2) + 1);
                }
                return V::Broadcast(t);
            }
            7 | 8 if n >= 1 => {
                let d = r.below(n);
                let sz = s[d] as i64;
                let st = r.range(1, 3) as i32;
                let a = r.range(-sz, sz - 1);
                let e = r.range(-sz, sz + 1);
                let an = if a < 0 { a + sz } else { a };
                let en = if e < 0 { e + sz } else { e.min(sz) };
                if r.below(3) == 0 {
                    return V::Slice(neg(r, d), a as i32, None, st);
                }
                if en > an {
                    return V::Slice(neg(r, d), a as i32, Some(e as i32), st);
                }
            }
            9 if size <= 8 && n >= 1 => return V::Repeat((0..n).map(|_| r.below(3) + 1).collect()),
            _ => {}
        }
    }
}

/// an operand of an operation under test
#[derive(Clone, Debug)]
pub struct Op {
    pub shape: Vec<usize>,
    pub lo: f64,
    pub hi: f64,
    /// takes part in differentiation
    pub grad: bool,
}
pub fn opd(shape: &[usize]) -> Op {
    Op { shape: shape.to_vec(), lo: -2.0, hi: 2.0, grad: true }
}
/// cases of one operation under several operand layouts: its value, or (grad) its value and gradients
pub fn op(
    cs: &mut Cases,
    grad: bool,
    name: impl Into<String>,
    ops: Vec<Op>,
    f: impl Fn(&mut Cx, &[Tensor]) -> Result<Tensor, String> + 'static,
    r: impl Fn(&[Arr]) -> Arr + 'static,
) {
    let name = name.into();
    let f = std::rc::Rc::new(f);
    let r = std::rc::Rc::new(r);
    let k = ops.len();
    // a deterministic turn through the layouts that differs between operations
    let seed = name.bytes().fold(7usize, |a, b| a.wrapping_mul(31).wrapping_add(b as usize));
    for v in 0..5usize {
        if grad && v > 0 && v % 2 == seed % 2 && !cs.thorough {
            continue;
        }
        let lays: Vec<Lay> = (0..k).map(|i| if v == 0 { Lay::Plain } else { LAYS[(v + i * (1 + seed % 4)) % 5] }).collect();
        let f64_ = (seed + v) % 3 == 0;
        let (ops, f, r) = (ops.clone(), f.clone(), r.clone());
        cs.add(format!("{}/{:?}{}", name, lays, if f64_ { "d" } else { "" }), move |x| {
            x.f64 = f64_;
            let mut ins = vec![];
            for (o, l) in ops.iter().zip(&lays) {
                ins.push(input(x, &o.shape, *l, o.lo, o.hi, grad && o.grad)?);
            }
            let ts: Vec<Tensor> = ins.iter().map(|i| i.t.clone()).collect();
            let as_: Vec<Arr> = ins.iter().map(|i| i.a.clone()).collect();
            let out = f(x, &ts)?;
            let want = r(&as_);
            if grad {
                let gi: Vec<&In> = ins.iter().zip(&ops).filter(|(_, o)| o.grad).map(|(i, _)| i).collect();
                grads(x, "op", &gi, &out, &want)
            } else {
                x.eq("op", &out, &want)
            }
        });
    }
}
