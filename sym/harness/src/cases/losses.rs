//! P28 losses: values and gradients with respect to the predictions
use super::indexing::itensor;
use super::util::*;
use crate::ir::*;
use hodu_core::tensor::Tensor;
use hodu_nn::module::Module;
use hodu_nn::prelude::*;
use hodu_nn::{BCELoss, HuberLoss, NLLLoss};

fn mean(v: &Arr) -> E {
    v.sum_all() / c(v.d.len() as f64)
}
fn per_batch(v: &Arr) -> E {
    v.sum_all() / c(v.shape[0] as f64)
}
/// value and gradients of a scalar loss
fn loss(x: &mut Cx, ins: &[&In], got: &Tensor, want: E) -> R {
    x.check("shape", got.shape().dims().iter().product::<usize>() == 1, format!("loss has shape {:?}", got.shape()));
    let g = from_t(got)?;
    x.eq_e("value", &g.d, &[want]);
    got.backward().s()?;
    for (k, i) in ins.iter().enumerate() {
        x.grad(&format!("grad{}", k), want, &i.leaf, &i.la)?;
    }
    Ok(())
}
fn shapes() -> Vec<(Vec<usize>, Lay, Lay)> {
    vec![
        (vec![3], Lay::Plain, Lay::Plain),
        (vec![1], Lay::Plain, Lay::Plain),
        (vec![2, 3], Lay::Plain, Lay::Plain),
        (vec![3, 2], Lay::T, Lay::Plain),
        (vec![2, 2], Lay::Step, Lay::T),
        (vec![2, 1, 2], Lay::Off, Lay::Step),
        (vec![2, 2], Lay::Plain, Lay::Bc),
    ]
}
type F = fn(&Tensor, &Tensor) -> Result<Tensor, String>;
fn pair(cs: &mut Cases, name: &str, (plo, phi): (f64, f64), (tlo, thi): (f64, f64), f: F, r: fn(&Arr, &Arr) -> E) {
    for (s, lp, lt) in shapes() {
        // piecewise losses: every element multiplies the paths
        let s = match (name.starts_with("huber") || name == "mse", &s[..]) {
            (true, [2, 3]) => vec![1, 3],
            (true, [3, 2]) => vec![3, 1],
            _ => s,
        };
        for f64_ in [false, true] {
            for both in [false, true] {
                if both && name.starts_with("bce") {
                    continue;
                }
                let s = s.clone();
                cs.add(format!("{}/{:?}/{:?}{:?}/{}{}", name, s, lp, lt, if f64_ { "f64" } else { "f32" }, if both { "/target" } else { "" }).replace(' ', ""), move |x| {
                    x.f64 = f64_;
                    let p = input(x, &s, lp, plo, phi, true)?;
                    let t = input(x, &s, lt, tlo, thi, both)?;
                    let got = f(&p.t, &t.t)?;
                    let want = r(&p.a, &t.a);
                    if both {
                        loss(x, &[&p, &t], &got, want)
                    } else {
                        loss(x, &[&p], &got, want)
                    }
                });
            }
        }
    }
}
fn sq(v: E) -> E {
    v * v
}
pub fn losses(cs: &mut Cases) {
    pair(cs, "mse", (-2.0, 2.0), (-2.0, 2.0), |p, t| MSELoss::new().forward((p, t)).s(), |p, t| mean(&p.zip(t, |a, b| sq(a - b))));
    pair(cs, "mae", (-2.0, 2.0), (-2.0, 2.0), |p, t| MAELoss::new().forward((p, t)).s(), |p, t| per_batch(&p.zip(t, |a, b| (a - b).abs())));
    fn huber(d: f64) -> impl Fn(&Arr, &Arr) -> E {
        move |p, t| {
            per_batch(&p.zip(t, |a, b| {
                let r = (a - b).abs();
                E::sel_le(r, c(d), r * r * c(0.5), c(d) * r - c(0.5 * d * d))
            }))
        }
    }
    pair(cs, "huber1", (-2.0, 2.0), (-2.0, 2.0), |p, t| HuberLoss::new(1.0f32).forward((p, t)).s(), |p, t| huber(1.0)(p, t));
    pair(cs, "huber.5", (-2.0, 2.0), (-2.0, 2.0), |p, t| HuberLoss::new(0.5f32).forward((p, t)).s(), |p, t| huber(0.5)(p, t));
    fn smooth(b: f64) -> impl Fn(&Arr, &Arr) -> E {
        move |p, t| {
            mean(&p.zip(t, |x, y| {
                let r = (x - y).abs();
                E::sel_lt(r, c(b), r * r * c(0.5 / b), r - c(0.5 * b))
            }))
        }
    }
    pair(cs, "smooth1", (-2.0, 2.0), (-2.0, 2.0), |p, t| SmoothL1Loss::new().forward((p, t)).s(), |p, t| smooth(1.0)(p, t));
    pair(cs, "smooth.5", (-2.0, 2.0), (-2.0, 2.0), |p, t| SmoothL1Loss::with_beta(0.5f32).forward((p, t)).s(), |p, t| smooth(0.5)(p, t));
    let bce: fn(&Arr, &Arr) -> E = |p, t| mean(&p.zip(t, |p, t| -(t * p.ln() + (c(1.0) - t) * (c(1.0) - p).ln())));
    pair(cs, "bce", (0.1, 0.9), (0.0, 1.0), |p, t| BCELoss::new().forward((p, t)).s(), bce);
    // outside [eps, 1 - eps] the prediction is clamped
    pair(cs, "bce-clamp", (-0.5, 1.5), (0.0, 1.0), |p, t| BCELoss::with_epsilon(0.125f32).forward((p, t)).s(), |p, t| {
        mean(&p.zip(t, |p, t| {
            let p = p.max(c(0.125)).min(c(0.875));
            -(t * p.ln() + (c(1.0) - t) * (c(1.0) - p).ln())
        }))
    });
    pair(cs, "bcelogits", (-3.0, 3.0), (0.0, 1.0), |p, t| BCEWithLogitsLoss::new().forward((p, t)).s(), |p, t| {
        mean(&p.zip(t, |z, t| z.max(c(0.0)) - z * t + (c(1.0) + (-z.abs()).exp()).ln()))
    });
    pair(cs, "kldiv", (-3.0, -0.1), (0.1, 1.0), |p, t| KLDivLoss::new().forward((p, t)).s(), |p, t| per_batch(&p.zip(t, |q, t| t * (t.ln() - q))));
    pair(cs, "kldiv-log", (-3.0, -0.1), (-3.0, -0.1), |p, t| KLDivLoss::with_log_target(true).forward((p, t)).s(), |p, t| {
        per_batch(&p.zip(t, |q, t| t.exp() * (t - q)))
    });
    // targets of probability zero contribute nothing
    for f in [false, true] {
        for zeros in [1usize, 3, 5, 15] {
            cs.add(format!("kldiv-zero/{}/{}", zeros, if f { "f64" } else { "f32" }), move |x| {
                x.f64 = f;
                let p = input(x, &[2, 2], Lay::Plain, -3.0, -0.1, true)?;
                let mut ta = x.arr(&[2, 2], 0.1, 1.0);
                for k in 0..4 {
                    if zeros >> k & 1 == 1 {
                        ta.d[k] = c(0.0);
                    }
                }
                let t = x.mk(&ta);
                let got = KLDivLoss::new().forward((&p.t, &t)).s()?;
                let terms = p.a.zip(&ta, |q, t| if t.is_sym() { t * (t.ln() - q) } else { c(0.0) * q });
                loss(x, &[&p], &got, per_batch(&terms))
            });
        }
    }
    // class losses
    for nll in [false, true] {
        for (s, dim, l) in [
            (vec![2usize, 3], -1i32, Lay::Plain),
            (vec![3, 2], -1, Lay::T),
            (vec![2, 3], 1, Lay::Step),
            (vec![1, 4], -1, Lay::Off),
            (vec![3], -1, Lay::Plain),
            (vec![3], 0, Lay::Plain),
            (vec![1, 2, 3], -1, Lay::Plain),
            (vec![2, 2, 2], 2, Lay::T),
            (vec![1, 3, 2], 1, Lay::Plain),
            (vec![2, 2, 2], -2, Lay::Step),
            (vec![3, 2], 0, Lay::Plain),
            (vec![3, 2], -2, Lay::Off),
            (vec![2, 2, 1, 2], 1, Lay::Plain),
        ] {
            let d = if dim < 0 { (s.len() as i32 + dim) as usize } else { dim as usize };
            let mut ts = s.clone();
            let k = ts.remove(d);
            let n: usize = ts.iter().product();
            for seed in 0..2u64 {
                let (s, ts) = (s.clone(), ts.clone());
                let mut r = Rng(7 + seed * 131 + s.len() as u64);
                let cls: Vec<i32> = (0..n).map(|_| r.below(k) as i32).collect();
                cs.add(format!("{}/{:?}/dim{}/{:?}/{:?}", if nll { "nll" } else { "crossentropy" }, s, dim, l, cls).replace(' ', ""), move |x| {
                    x.f64 = seed == 1;
                    let p = input(x, &s, l, -2.0, 2.0, true)?;
                    let t = itensor(&ts, if seed == 1 { Lay::Step } else { Lay::Plain }, &cls)?;
                    let got = match (nll, dim) {
                        (false, -1) => CrossEntropyLoss::new().forward((&p.t, &t)).s()?,
                        (false, _) => CrossEntropyLoss::with_dim(dim).forward((&p.t, &t)).s()?,
                        (true, -1) => NLLLoss::new().forward((&p.t, &t)).s()?,
                        (true, _) => NLLLoss::with_dim(dim).forward((&p.t, &t)).s()?,
                    };
                    let mut terms = vec![];
                    for (i, ix) in indices(&ts).iter().enumerate() {
                        let at = |q: usize| {
                            let mut j = ix.clone();
                            j.insert(d, q);
                            p.a.at(&j)
                        };
                        let mut v = -at(cls[i] as usize);
                        if !nll {
                            v = v + (0..k).map(|q| at(q).exp()).sum::<E>().ln();
                        }
                        terms.push(v);
                    }
                    let m = terms.len() as f64;
                    loss(x, &[&p], &got, terms.into_iter().sum::<E>() / c(m))
                });
            }
        }
    }
    // cosine embedding: labels are concrete
    for (ys, s) in [(vec![1i64, -1], vec![2usize, 2]), (vec![-1, -1], vec![2, if cs.thorough { 3 } else { 2 }]), (vec![1, 1], vec![2, 2]), (vec![-1], vec![1, 3])] {
        for margin in [None, Some(0.25f32)] {
            for f in [false, true] {
                let (ys, s) = (ys.clone(), s.clone());
                cs.add(format!("cosine/{:?}/{:?}/{:?}/{}", ys, s, margin, if f { "f64" } else { "f32" }).replace(' ', ""), move |x| {
                    x.f64 = f;
                    let a = input(x, &s, if f { Lay::T } else { Lay::Plain }, 0.5, 2.0, true)?;
                    let b = input(x, &s, Lay::Plain, -2.0, 2.0, true)?;
                    let y = x.mk(&Arr::new(&[ys.len()], ys.iter().map(|&v| c(v as f64)).collect()));
                    let l = match margin {
                        None => CosineEmbeddingLoss::new(),
                        Some(m) => CosineEmbeddingLoss::with_margin(m),
                    };
                    // b is kept away from the zero vector
                    for i in 0..ys.len() {
                        let n2 = (0..s[1]).map(|j| b.a.at(&[i, j]) * b.a.at(&[i, j])).sum::<E>();
                        x.assume(n2.gt(c(0.25)));
                    }
                    let got = l.forward((&a.t, &b.t, &y)).s()?;
                    let mut tot = c(0.0);
                    for i in 0..ys.len() {
                        let (mut d, mut na, mut nb) = (c(0.0), c(0.0), c(0.0));
                        for j in 0..s[1] {
                            let (p, q) = (a.a.at(&[i, j]), b.a.at(&[i, j]));
                            d = d + p * q;
                            na = na + p * p;
                            nb = nb + q * q;
                        }
                        let cos = d / (na.sqrt() * nb.sqrt() + c(1e-8f32 as f64));
                        tot = tot + if ys[i] == 1 { c(1.0) - cos } else { (cos - c(margin.unwrap_or(0.0) as f64)).max(c(0.0)) };
                    }
                    loss(x, &[&a, &b], &got, tot / c(ys.len() as f64))
                });
            }
        }
    }
}
