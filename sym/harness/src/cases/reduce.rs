//! P04 / P19: reductions and their gradients
use super::util::*;
use crate::ir::*;
use hodu_core::{error::HoduResult, tensor::Tensor};

pub struct Red {
    pub name: &'static str,
    pub f: fn(&Tensor, &[i32], bool) -> HoduResult<Tensor>,
    pub e: fn(&[E]) -> E,
    pub lo: f64,
    pub hi: f64,
    /// branches on the data: keep the number of elements small
    pub cmp: bool,
}
fn maxl(v: &[E]) -> E {
    v[1..].iter().fold(v[0], |a, &b| a.max(b))
}
fn minl(v: &[E]) -> E {
    v[1..].iter().fold(v[0], |a, &b| a.min(b))
}
pub fn mean(v: &[E]) -> E {
    v.iter().cloned().sum::<E>() / c(v.len() as f64)
}
pub fn var(v: &[E]) -> E {
    let m = mean(v);
    v.iter().map(|&x| (x - m) * (x - m)).sum::<E>() / c(v.len() as f64)
}
pub fn reds() -> Vec<Red> {
    macro_rules! r {
        ($n:ident, $lo:expr, $hi:expr, $cmp:expr, $e:expr) => {
            Red { name: stringify!($n), f: |t, d, k| t.$n(d, k), e: $e, lo: $lo, hi: $hi, cmp: $cmp }
        };
    }
    let n = |p: &'static str, f: fn(&Tensor, &[i32], bool) -> HoduResult<Tensor>, e: fn(&[E]) -> E, lo: f64| Red { name: p, f, e, lo, hi: 2.0, cmp: lo < 0.0 };
    macro_rules! norm {
        ($p:expr, $e:expr, $lo:expr) => {
            n(
                concat!("norm", stringify!($p)),
                |t, d, k| if t.dtype() == hodu_core::types::DType::F64 { t.norm($p as f64, d, k) } else { t.norm($p as f32, d, k) },
                $e,
                $lo,
            )
        };
    }
    vec![
        r!(sum, -2.0, 2.0, false, |v| v.iter().cloned().sum()),
        r!(mean, -2.0, 2.0, false, mean),
        r!(prod, 0.5, 1.5, false, |v| v.iter().fold(c(1.0), |a, &b| a * b)),
        r!(max, -2.0, 2.0, true, maxl),
        r!(min, -2.0, 2.0, true, minl),
        r!(var, -2.0, 2.0, false, var),
        r!(std, -2.0, 2.0, false, |v| var(v).sqrt()),
        r!(l2_norm, 0.2, 2.0, false, |v| v.iter().map(|&x| x * x).sum::<E>().sqrt()),
        r!(l1_norm, -2.0, 2.0, true, |v| v.iter().map(|&x| x.abs()).sum()),
        r!(logsum, 0.2, 2.0, false, |v| v.iter().cloned().sum::<E>().ln()),
        r!(logsumexp, -1.0, 1.0, true, |v| v.iter().map(|x| x.exp()).sum::<E>().ln()),
        norm!(1, |v| v.iter().map(|&x| x.abs()).sum(), -2.0),
        norm!(2, |v| v.iter().map(|&x| x * x).sum::<E>().sqrt(), 0.2),
        norm!(3, |v| v.iter().map(|&x| x * x * x).sum::<E>().pow(c(1.0) / c(3.0)), 1.1),
        norm!(0.5, |v| v.iter().map(|&x| x.sqrt()).sum::<E>().pow(c(2.0)), 1.1),
        norm!(1.5, |v| v.iter().map(|&x| x.pow(c(1.5))).sum::<E>().pow(c(1.0) / c(1.5)), 1.1),
    ]
}
/// every non-empty subset of the dimensions (written positively or negatively), and none
fn subsets(n: usize) -> Vec<Vec<i32>> {
    let mut out = vec![vec![]];
    for m in 1..1u32 << n {
        let d: Vec<i32> = (0..n as i32).filter(|k| m >> k & 1 == 1).map(|k| if (k + m as i32) % 2 == 0 { k } else { k - n as i32 }).collect();
        out.push(d.clone());
        if d.len() == 2 {
            out.push(vec![d[1], d[0]]);
        }
    }
    out
}
fn axes(d: &[i32], n: usize) -> Vec<usize> {
    d.iter().map(|&k| if k < 0 { (k + n as i32) as usize } else { k as usize }).collect()
}
fn shapes(cmp: bool) -> Vec<Vec<usize>> {
    if cmp {
        vec![vec![3], vec![2, 2], vec![1, 3], vec![2, 1, 2]]
    } else {
        vec![vec![3], vec![5], vec![2, 3], vec![1, 3], vec![3, 1], vec![2, 3, 2], vec![2, 1, 2, 2]]
    }
}
/// k is the first position of the extreme element among v
fn first_ext(v: &[E], k: usize, max: bool) -> B {
    let mut b = B::K(k < v.len());
    for (j, &x) in v.iter().enumerate() {
        if j == k {
            continue;
        }
        let y = v[k.min(v.len() - 1)];
        b = b.and(match (max, j < k) {
            (true, true) => x.lt(y),
            (true, false) => x.le(y),
            (false, true) => x.gt(y),
            (false, false) => x.ge(y),
        });
    }
    b
}
fn groups(a: &Arr, ax: &[usize]) -> Vec<Vec<E>> {
    let ax: Vec<usize> = if ax.is_empty() { (0..a.shape.len()).collect() } else { ax.to_vec() };
    let ks: Vec<usize> = (0..a.shape.len()).map(|k| if ax.contains(&k) { 1 } else { a.shape[k] }).collect();
    let rs: Vec<usize> = (0..a.shape.len()).map(|k| if ax.contains(&k) { a.shape[k] } else { 1 }).collect();
    indices(&ks).iter().map(|i| indices(&rs).iter().map(|r| a.at(&i.iter().zip(r).map(|(x, y)| x + y).collect::<Vec<_>>())).collect()).collect()
}
fn rshape(s: &[usize], ax: &[usize], keep: bool) -> Vec<usize> {
    let all = ax.is_empty();
    (0..s.len()).filter(|k| keep || !(all || ax.contains(k))).map(|k| if all || ax.contains(&k) { 1 } else { s[k] }).collect()
}

pub fn cases(cs: &mut Cases) {
    for dt64 in [false, true] {
        let dn = if dt64 { "f64" } else { "f32" };
        for r in reds() {
            let r = std::rc::Rc::new(r);
            for l in LAYS {
                for s in shapes(r.cmp || r.lo == 1.1) {
                    if s.len() < 2 && l == Lay::T || r.lo == 1.1 && (s.len() > 2 || l != Lay::Plain && l != Lay::T) {
                        continue;
                    }
                    let r = r.clone();
                    cs.add(format!("{}/{}/{:?}/{:?}", r.name, dn, s, l), move |x| {
                        x.f64 = dt64;
                        let (t, a) = laid(x, &s, l, r.lo, r.hi)?;
                        for d in subsets(s.len()) {
                            let ax = axes(&d, s.len());
                            for keep in [false, true] {
                                x.eq(&format!("{:?}{}", d, keep).replace(' ', ""), &(r.f)(&t, &d, keep).s()?, &a.reduce(&ax, keep, r.e))?;
                            }
                        }
                        Ok(())
                    });
                }
            }
            if r.cmp && r.name != "max" && r.name != "min" {
                continue;
            }
            // vector bodies and tails; a scalar
            let r = r.clone();
            for n in [1usize, 2, 4, 7, 8, 9, 16, 19, 33, 64] {
                if r.lo == 1.1 && n > 4 || r.cmp && n > 9 || n > 19 && (r.name.starts_with("norm") || r.name == "std" || r.name == "l2_norm" || r.name == "prod") {
                    continue;
                }
                let r = r.clone();
                cs.add(format!("{}/{}/n{}", r.name, dn, n), move |x| {
                    x.f64 = dt64;
                    // the elements of a maximum are kept apart, so that only one order is left to explore
                    let a = if r.cmp {
                        let v = (0..n).map(|i| { let k = (i * 5 + 3) % n; x.var(k as f64, k as f64 + 0.5) }).collect();
                        Arr::new(&[n], v)
                    } else {
                        x.arr(&[n], r.lo, r.hi)
                    };
                    let t = x.mk(&a);
                    x.eq("all", &(r.f)(&t, &[], false).s()?, &a.reduce(&[], false, r.e))?;
                    let b = a.reshape(&[1, n]);
                    let t2 = t.reshape(&[1, n]).s()?;
                    x.eq("last", &(r.f)(&t2, &[-1], true).s()?, &b.reduce(&[1], true, r.e))?;
                    let t3 = t.reshape(&[n, 1]).s()?;
                    x.eq("first", &(r.f)(&t3, &[0], false).s()?, &a.reshape(&[n, 1]).reduce(&[0], false, r.e))
                });
            }
        }
        for l in LAYS {
            for s in [vec![3], vec![2, 2], vec![1, 3], vec![2, 1, 2]] {
                if s.len() < 2 && l == Lay::T {
                    continue;
                }
                for (name, max) in [("argmax", true), ("argmin", false)] {
                    let s = s.clone();
                    cs.add(format!("{}/{}/{:?}/{:?}", name, dn, s, l), move |x| {
                        x.f64 = dt64;
                        let (t, a) = laid(x, &s, l, -2.0, 2.0)?;
                        for d in subsets(s.len()) {
                            if d.len() > 1 && axes(&d, s.len()).windows(2).any(|w| w[0] > w[1]) {
                                continue;
                            }
                            let ax = axes(&d, s.len());
                            for keep in [false, true] {
                                let lab = format!("{:?}{}", d, keep).replace(' ', "");
                                let g = if max { t.argmax(&d, keep) } else { t.argmin(&d, keep) }.s()?;
                                let ws = rshape(&s, &ax, keep);
                                if g.shape().to_vec() != ws {
                                    x.fail(&lab, &format!("shape {:?}, expected {:?}", g.shape().to_vec(), ws));
                                    continue;
                                }
                                let g = g.to_flatten_vec::<i32>().s()?;
                                let mut b = B::K(true);
                                // over several dimensions the result is the coordinate in the first of them
                                let first = ax.first().map(|&k| s[k]).unwrap_or(s[0]);
                                for (v, k) in groups(&a, &ax).iter().zip(g) {
                                    let rest = v.len() / first;
                                    let hit = (0..v.len())
                                        .filter(|p| (p / rest) as i32 == k)
                                        .fold(B::K(false), |h, p| h.or(first_ext(v, p, max)));
                                    b = b.and(hit);
                                }
                                x.assert(&lab, b);
                            }
                        }
                        Ok(())
                    });
                }
                for (name, all) in [("any", false), ("all", true)] {
                    let s = s.clone();
                    cs.add(format!("{}/{}/{:?}/{:?}", name, dn, s, l), move |x| {
                        x.f64 = dt64;
                        let (t, a) = laid(x, &s, l, -2.0, 2.0)?;
                        for d in subsets(s.len()) {
                            let ax = axes(&d, s.len());
                            for keep in [false, true] {
                                let g = if all { t.all(&d, keep) } else { t.any(&d, keep) }.s()?;
                                let w: Vec<B> = groups(&a, &ax)
                                    .iter()
                                    .map(|v| {
                                        v.iter().fold(B::K(all), |b, &e| {
                                            let nz = e.eq(c(0.0)).not();
                                            if all { b.and(nz) } else { b.or(nz) }
                                        })
                                    })
                                    .collect();
                                x.eq_b(&format!("{:?}{}", d, keep).replace(' ', ""), &g, &rshape(&s, &ax, keep), &w)?;
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
        for l in LAYS {
            cs.add(format!("sum_to_shape/{}/{:?}", dn, l), move |x| {
                x.f64 = dt64;
                for (s, ts) in [
                    (vec![2, 3], vec![vec![3], vec![1, 3], vec![2, 1], vec![1, 1], vec![1], vec![], vec![2, 3]]),
                    (vec![2, 3, 2], vec![vec![3, 2], vec![1, 2], vec![3, 1], vec![2, 1, 2], vec![1, 3, 1], vec![2, 1, 1], vec![1, 1, 1], vec![1, 1], vec![2]]),
                ] {
                    let (t, a) = laid(x, &s, l, -2.0, 2.0)?;
                    for g in ts {
                        let mut w = Arr::full(&g, c(0.0));
                        for i in indices(&s) {
                            let j: Vec<usize> = (0..g.len()).map(|k| if g[k] == 1 { 0 } else { i[k + s.len() - g.len()] }).collect();
                            let v = w.at(&j) + a.at(&i);
                            w.set(&j, v);
                        }
                        x.eq(&format!("{:?}->{:?}", s, g).replace(' ', ""), &t.sum_to_shape(&g[..]).s()?, &w)?;
                    }
                }
                Ok(())
            });
            cs.add(format!("alls/{}/{:?}", dn, l), move |x| {
                x.f64 = dt64;
                let (t, a) = laid(x, &[2, 3], l, -2.0, 2.0)?;
                x.eq("sum_all", &t.sum_all().s()?, &Arr::new(&[], vec![a.sum_all()]))?;
                x.eq("mean_all", &t.mean_all().s()?, &a.mean(&[], false))?;
                x.eq("var_all", &t.var_all().s()?, &a.reduce(&[], false, var))?;
                x.eq("std_all", &t.std_all().s()?, &a.reduce(&[], false, |v| var(v).sqrt()))
            });
        }
        // a 0-dimensional tensor reduces to itself
        cs.add(format!("zero_dim/{}", dn), move |x| {
            x.f64 = dt64;
            let (t, a) = x.tensor_in(&[], 0.5, 1.5);
            for r in reds() {
                if r.name == "std" || r.name == "var" {
                    continue;
                }
                x.eq(r.name, &(r.f)(&t, &[], false).s()?, &a.reduce(&[], false, r.e))?;
            }
            Ok(())
        });
    }
    // the multi-threaded path
    for (name, n) in [("sum", 200_003usize), ("mean", 200_000), ("max", 200_001)] {
        cs.add(format!("threaded/{}", name), move |x| {
            // a mostly constant tensor: the sum is affine in a few symbols at chunk borders
            let mut a = Arr::full(&[n], c(0.0));
            for k in 0..40 {
                let i = k * (n - 1) / 39;
                a.d[i] = if name == "max" { x.var(k as f64 + 1.0, k as f64 + 1.5) } else { x.var(-2.0, 2.0) };
            }
            let t = x.mk(&a);
            let w = match name {
                "sum" => a.sum_all(),
                "mean" => a.sum_all() / c(n as f64),
                _ => a.d[n - 1],
            };
            let f = match name {
                "sum" => t.sum::<i32>(&[], false),
                "mean" => t.mean::<i32>(&[], false),
                _ => t.max::<i32>(&[], false),
            };
            x.eq("v", &f.s()?, &Arr::new(&[], vec![w]))
        });
    }
}

pub fn grads_(cs: &mut Cases) {
    for dt64 in [false, true] {
        let dn = if dt64 { "f64" } else { "f32" };
        for r in reds() {
            if r.name == "l1_norm" || r.name.starts_with("norm") && r.name != "norm2" {
                continue; // built on abs, which is declared to have no gradient
            }
            let r = std::rc::Rc::new(r);
            for l in LAYS {
                if dt64 && l != Lay::Plain {
                    continue;
                }
                for s in [vec![3], vec![2, 2], vec![2, 1, 2]] {
                    if s.len() < 2 && l == Lay::T {
                        continue;
                    }
                    for d in subsets(s.len()) {
                        for keep in [false, true] {
                            let (r, s, d) = (r.clone(), s.clone(), d.clone());
                            cs.add(format!("{}/{}/{:?}/{:?}/{:?}{}", r.name, dn, s, l, d, keep), move |x| {
                                x.f64 = dt64;
                                let i = input(x, &s, l, r.lo, r.hi, true)?;
                                if r.cmp {
                                    for p in 0..i.la.d.len() {
                                        x.differs(i.la.d[p], 0.0);
                                        if l == Lay::Bc {
                                            continue;
                                        }
                                        for q in 0..p {
                                            let b = i.la.d[p].eq(i.la.d[q]).not();
                                            x.assume(b);
                                        }
                                    }
                                }
                                let ax = axes(&d, s.len());
                                if l == Lay::Bc && r.name != "sum" && r.name != "mean" && (r.cmp || r.name == "std" || r.name == "var") && (ax.is_empty() || ax.contains(&0)) {
                                    return Ok(()); // ties, or a constant under the square root
                                }
                                if r.name == "std" && rshape(&s, &ax, false).iter().product::<usize>() == s.iter().product::<usize>() {
                                    return Ok(());
                                }
                                grads(x, "g", &[&i], &(r.f)(&i.t, &d, keep).s()?, &i.a.reduce(&ax, keep, r.e))
                            });
                        }
                    }
                }
            }
        }
        // prod next to zeros
        for z in 1..8u32 {
            cs.add(format!("prod_zero/{}/{}", dn, z), move |x| {
                x.f64 = dt64;
                let mut a = x.arr(&[3], 0.5, 1.5);
                for k in 0..3 {
                    if z >> k & 1 == 1 {
                        a.d[k] = c(0.0);
                    }
                }
                let t = x.mk(&a);
                t.set_requires_grad(true).s()?;
                let o = t.prod::<i32>(&[], false).s()?;
                x.eq("value", &o, &Arr::new(&[], vec![a.d[0] * a.d[1] * a.d[2]]))?;
                o.backward().s()?;
                let w = Arr::new(&[3], vec![a.d[1] * a.d[2], a.d[0] * a.d[2], a.d[0] * a.d[1]]);
                x.eq("grad", &t.grad().s()?, &w)
            });
        }
    }
}
