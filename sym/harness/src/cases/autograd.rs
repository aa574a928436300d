//! backpropagation through whole programs: shared, branching and dead tensors, histories of passes
use super::util::*;
use crate::ir::*;
use hodu_core::{scalar::Scalar, tensor::{GradientContext, Tensor}};

/// a value of a program
#[derive(Clone)]
struct N {
    t: Tensor,
    a: Arr,
    /// made from a tensor that requires a gradient
    live: bool,
}
/// one random program on 2x2 and 2x3 tensors; every step uses one or two earlier values
fn grow(x: &mut Cx, r: &mut Rng, vs: &mut Vec<N>, steps: usize, drop_some: bool) -> R {
    for _ in 0..steps {
        let p = r.below(vs.len());
        let q = r.below(vs.len());
        let (u, v) = (vs[p].clone(), vs[q].clone());
        let same = u.a.shape == v.a.shape;
        let which = r.below(14);
        if std::env::var("TRACE").is_ok() {
            eprintln!("{which} {p} {q} of {} {:?} {:?} live {}", vs.len(), u.a.shape, v.a.shape, u.live);
        }
        let (t, a, live) = match which {
            0 | 1 if same => (u.t.add(&v.t).s()?, u.a.add(&v.a), u.live | v.live),
            2 | 3 if same => (u.t.mul(&v.t).s()?, u.a.mul(&v.a), u.live | v.live),
            4 if same => (u.t.sub(&v.t).s()?, u.a.sub(&v.a), u.live | v.live),
            5 if same => {
                let w = Tensor::cat(&[&u.t, &v.t], 0).s()?;
                let n = u.a.shape[0];
                let wa = Arr::gen(&[2 * n, u.a.shape[1]], |ix| if ix[0] < n { u.a.at(ix) } else { v.a.at(&[ix[0] - n, ix[1]]) });
                (w.slice(0, 1, Some(n as i32 + 1), 1).s()?, Arr::gen(&u.a.shape.clone(), |ix| wa.at(&[ix[0] + 1, ix[1]])), u.live | v.live)
            }
            6 if u.a.shape[1] == v.a.shape[0] => (u.t.matmul(&v.t).s()?, u.a.matmul(&v.a), u.live | v.live),
            7 => (u.t.mul_scalar(Scalar::from(-1.5f32)).s()?, u.a.scale(-1.5), u.live),
            8 => (u.t.add_scalar(Scalar::from(0.75f32)).s()?, u.a.map(|e| e + c(0.75)), u.live),
            9 => {
                let s = u.t.sum(&[1], true).s()?;
                let sa = u.a.sum(&[1], true);
                (u.t.sub(&s).s()?, Arr::gen(&u.a.shape.clone(), |ix| u.a.at(ix) - sa.bat(ix)), u.live)
            }
            10 if u.a.shape[0] == u.a.shape[1] => (u.t.transpose(0, 1).s()?, u.a.t(), u.live),
            11 => (u.t.square().s()?, u.a.mul(&u.a), u.live),
            12 => (u.t.mul(&u.t).s()?.add(&u.t).s()?, u.a.mul(&u.a).add(&u.a), u.live),
            13 => {
                let k = u.a.shape[1];
                let f = u.t.flatten().s()?;
                (f.reshape(&[2, k]).s()?, u.a.clone(), u.live)
            }
            _ => (u.t.neg().s()?, u.a.scale(-1.0), u.live),
        };
        vs.push(N { t, a, live });
        // handles the caller no longer holds
        if drop_some && vs.len() > 6 {
            let k = 3 + r.below(vs.len() - 4);
            if std::env::var("TRACE").is_ok() {
                eprintln!("drop {k}");
            }
            vs.remove(k);
        }
    }
    let _ = x;
    Ok(())
}
struct Leaves {
    v: Vec<N>,
}
/// two tensors that require gradients, one that does not
fn leaves(x: &mut Cx, shape: &[usize]) -> Result<Leaves, String> {
    let mut v = vec![];
    for k in 0..3 {
        let (t, a) = x.tensor_in(shape, if k == 1 { -2.0 } else { 0.5 }, if k == 1 { -0.5 } else { 2.0 });
        if k < 2 {
            t.set_requires_grad(true).s()?;
        }
        v.push(N { t, a, live: k < 2 });
    }
    Ok(Leaves { v })
}
/// weighted sum of a value: the loss and its reference
fn loss(x: &mut Cx, n: &N) -> Result<(Tensor, E), String> {
    let (w, wa) = x.tensor_in(&n.a.shape.clone(), 0.5, 2.0);
    let l = n.t.mul(&w).s()?.sum_all().s()?;
    Ok((l, n.a.mul(&wa).sum_all()))
}
fn none(x: &mut Cx, label: &str, t: &Tensor) {
    x.check(label, t.grad().is_err(), "a tensor that takes no part has a gradient");
}
/// the last live value, so that backward is possible
fn pick(vs: &[N]) -> N {
    vs.iter().rev().find(|n| n.live).unwrap().clone()
}
fn both(x: &mut Cx, label: &str, l: E, ls: &Leaves) -> R {
    for k in 0..2 {
        match ls.v[k].t.grad() {
            Ok(_) => x.grad(&format!("{}:grad{}", label, k), l, &ls.v[k].t, &ls.v[k].a)?,
            // no gradient at all is right only for a leaf the loss does not depend on
            Err(_) => {
                let z = vec![c(0.0); ls.v[k].a.d.len()];
                let d = ls.v[k].a.d.clone();
                x.grad_e(&format!("{}:nograd{}", label, k), l, &d, &z);
            }
        }
    }
    none(x, &format!("{}:constant", label), &ls.v[2].t);
    Ok(())
}

pub fn histories(cs: &mut Cases) {
    let n = if cs.thorough { 60 } else { 14 };
    for seed in 0..n {
        for (sn, shape) in [("sq", vec![2, 2]), ("rect", vec![2, 3])] {
            let steps = 3 + (seed % 4) as usize;
            let sh = shape.clone();
            // one pass
            cs.add(format!("once/{}/{}", sn, seed), move |x| {
                let mut r = Rng(seed * 7919 + 13);
                let ls = leaves(x, &sh)?;
                let mut vs = ls.v.clone();
                grow(x, &mut r, &mut vs, steps, false)?;
                let o = pick(&vs);
                x.eq("value", &o.t, &o.a)?;
                let (l, le) = loss(x, &o)?;
                l.backward().s()?;
                both(x, "once", le, &ls)
            });
            let sh = shape.clone();
            // intermediate handles dropped before the pass
            cs.add(format!("dropped/{}/{}", sn, seed), move |x| {
                let mut r = Rng(seed * 104729 + 71);
                let ls = leaves(x, &sh)?;
                let mut vs = ls.v.clone();
                grow(x, &mut r, &mut vs, steps + 2, true)?;
                let o = pick(&vs);
                drop(vs);
                let (l, le) = loss(x, &o)?;
                drop(o);
                l.backward().s()?;
                both(x, "dropped", le, &ls)
            });
            if seed % 2 == 1 && !cs.thorough {
                continue;
            }
            let sh = shape.clone();
            // several passes over programs built one after the other from the same leaves
            cs.add(format!("passes/{}/{}", sn, seed), move |x| {
                let mut r = Rng(seed * 15485863 + 5);
                let ls = leaves(x, &sh)?;
                for pass in 0..3 {
                    let mut vs = ls.v.clone();
                    grow(x, &mut r, &mut vs, 3, pass == 1)?;
                    let o = pick(&vs);
                    let (l, le) = loss(x, &o)?;
                    for k in 0..2 {
                        ls.v[k].t.zero_grad().s()?;
                        if let Ok(g) = ls.v[k].t.grad() {
                            x.eq(&format!("pass{}:cleared{}", pass, k), &g, &Arr::full(&sh, c(0.0)))?;
                        }
                    }
                    l.backward().s()?;
                    both(x, &format!("pass{}", pass), le, &ls)?;
                }
                Ok(())
            });
            let sh = shape.clone();
            // a nested context has its own graph and leaves the outer one intact
            cs.add(format!("nested/{}/{}", sn, seed), move |x| {
                let mut r = Rng(seed * 6700417 + 3);
                let ls = leaves(x, &sh)?;
                let mut vs = ls.v.clone();
                grow(x, &mut r, &mut vs, 3, false)?;
                let o = pick(&vs);
                let (l, le) = loss(x, &o)?;
                {
                    let _g = GradientContext::new();
                    let inner = leaves(x, &sh)?;
                    let mut ws = inner.v.clone();
                    grow(x, &mut r, &mut ws, 3, false)?;
                    let p = pick(&ws);
                    let (m, me) = loss(x, &p)?;
                    m.backward().s()?;
                    both(x, "inner", me, &inner)?;
                    none(x, "outer-untouched0", &ls.v[0].t);
                    {
                        let _h = GradientContext::new();
                        let mut us = inner.v.clone();
                        grow(x, &mut r, &mut us, 2, false)?;
                        let p = pick(&us);
                        let (m, me) = loss(x, &p)?;
                        for k in 0..2 {
                            inner.v[k].t.zero_grad().s()?;
                        }
                        m.backward().s()?;
                        both(x, "innermost", me, &inner)?;
                    }
                }
                l.backward().s()?;
                both(x, "outer", le, &ls)
            });
        }
    }
    // particular shapes of graphs
    cs.add("diamond", |x| {
        let ls = leaves(x, &[2])?;
        let (a, b) = (&ls.v[0], &ls.v[1]);
        let s = a.t.add(&b.t).s()?;
        let sa = a.a.add(&b.a);
        let p = s.mul(&s).s()?.add(&s).s()?.mul(&a.t).s()?;
        let pa = sa.mul(&sa).add(&sa).mul(&a.a);
        let (l, le) = loss(x, &N { t: p, a: pa, live: true })?;
        l.backward().s()?;
        both(x, "diamond", le, &ls)
    });
    cs.add("unused-branch", |x| {
        let ls = leaves(x, &[2])?;
        let (a, b) = (&ls.v[0], &ls.v[1]);
        let dead = a.t.mul(&b.t).s()?.exp().s()?;
        let (l, le) = loss(x, &N { t: a.t.square().s()?, a: a.a.mul(&a.a), live: true })?;
        l.backward().s()?;
        none(x, "b", &b.t);
        x.grad("a", le, &a.t, &a.a)?;
        drop(dead);
        Ok(())
    });
    cs.add("not-required", |x| {
        let ls = leaves(x, &[2])?;
        let t = ls.v[2].t.square().s()?.sum_all().s()?;
        x.check("flag", !t.is_requires_grad(), "a result of constants requires a gradient");
        x.check("backward", t.backward().is_err(), "backward without a graph succeeds");
        none(x, "constant", &ls.v[2].t);
        Ok(())
    });
    cs.add("switched-off", |x| {
        let ls = leaves(x, &[2])?;
        let (a, b) = (&ls.v[0], &ls.v[1]);
        a.t.set_requires_grad(false).s()?;
        let p = a.t.mul(&b.t).s()?;
        let pa = a.a.mul(&b.a);
        let (l, le) = loss(x, &N { t: p, a: pa, live: true })?;
        l.backward().s()?;
        none(x, "a", &a.t);
        x.grad("b", le, &b.t, &b.a)
    });
    // constants made for one operation and dropped at once
    for k in 0..3 {
        cs.add(format!("temporary-constant/{}", k), move |x| {
            let ls = leaves(x, &[2])?;
            let (a, b) = (&ls.v[0], &ls.v[1]);
            let (p, pa) = match k {
                0 => (a.t.mul(&Tensor::full(&[2], 3.0f32).s()?).s()?.mul(&b.t).s()?, a.a.scale(3.0).mul(&b.a)),
                1 => {
                    let (t, ta) = x.tensor_in(&[2], 0.5, 2.0);
                    let m = a.t.mul(&t).s()?;
                    drop(t);
                    (m.add(&b.t).s()?, a.a.mul(&ta).add(&b.a))
                }
                _ => {
                    let t = Tensor::from_slice(&[2.0f32, -1.0], &[2]).s()?;
                    let m = t.div(&a.t).s()?.mul(&b.t).s()?;
                    drop(t);
                    (m, Arr::new(&[2], vec![c(2.0) / a.a.d[0] * b.a.d[0], c(-1.0) / a.a.d[1] * b.a.d[1]]))
                }
            };
            let (l, le) = loss(x, &N { t: p, a: pa, live: true })?;
            l.backward().s()?;
            both(x, "temporary", le, &ls)
        });
    }
    for k in 0..6 {
        cs.add(format!("temporary-operand/{}", k), move |x| {
            let ls = leaves(x, &[2, 2])?;
            let (a, b) = (&ls.v[0], &ls.v[1]);
            let (t, ta) = x.tensor_in(&[2, 2], 0.5, 2.0);
            let (p, pa) = match k {
                0 => (a.t.matmul(&t).s()?, a.a.matmul(&ta)),
                1 => (Tensor::cat(&[&t, &a.t], 0).s()?, Arr::gen(&[4, 2], |ix| if ix[0] < 2 { ta.at(ix) } else { a.a.at(&[ix[0] - 2, ix[1]]) })),
                2 => {
                    let i = super::indexing::itensor(&[2], Lay::Plain, &[1, 0])?;
                    (a.t.index_select(0, &i).s()?, Arr::gen(&[2, 2], |ix| a.a.at(&[1 - ix[0], ix[1]])))
                }
                3 => {
                    let m = Tensor::from_slice(vec![true, false, false, true], &[2, 2]).s()?;
                    (a.t.where3(&m, &b.t).s()?, Arr::gen(&[2, 2], |ix| if ix[0] == ix[1] { a.a.at(ix) } else { b.a.at(ix) }))
                }
                4 => (t.dot(&a.t).s()?, ta.matmul(&a.a)),
                _ => {
                    let u = t.add(&a.t).s()?;
                    (u.mul(&u).s()?, ta.add(&a.a).mul(&ta.add(&a.a)))
                }
            };
            drop(t);
            let (l, le) = loss(x, &N { t: p, a: pa, live: true })?;
            l.backward().s()?;
            both(x, "temporary", le, &ls)
        });
    }
    // a tensor stays usable however many passes went through it
    for k in 0..3 {
        cs.add(format!("repeated/{}", k), move |x| {
            let ls = leaves(x, &[2, 2])?;
            let a = &ls.v[0];
            let (aa, det) = (&a.a, a.a.d[0] * a.a.d[3] - a.a.d[1] * a.a.d[2]);
            if k < 2 {
                x.assume(det.gt(c(0.25)));
            }
            for pass in 0..4 {
                let o = match k {
                    0 => N { t: a.t.det().s()?, a: Arr::new(&[], vec![det]), live: true },
                    1 => N { t: a.t.inv().s()?, a: Arr::new(&[2, 2], vec![aa.d[3] / det, -aa.d[1] / det, -aa.d[2] / det, aa.d[0] / det]), live: true },
                    _ => N { t: a.t.trace().s()?, a: Arr::new(&[], vec![aa.d[0] + aa.d[3]]), live: true },
                };
                let (l, le) = loss(x, &o)?;
                l.backward().s()?;
                x.grad(&format!("pass{}", pass), le, &a.t, aa)?;
                x.eq(&format!("intact{}", pass), &a.t, aa)?;
                let g = a.t.grad().s()?;
                x.check(&format!("shape{}", pass), g.shape().dims() == [2, 2], "the gradient lost its shape");
            }
            Ok(())
        });
    }
    // a leaf the caller no longer holds
    cs.add("temporary-leaf", |x| {
        let ls = leaves(x, &[2])?;
        let (a, b) = (&ls.v[0], &ls.v[1]);
        let (t, ta) = x.tensor_in(&[2], 0.5, 2.0);
        t.set_requires_grad(true).s()?;
        let m = a.t.mul(&t).s()?.mul(&b.t).s()?;
        drop(t);
        let (l, le) = loss(x, &N { t: m, a: a.a.mul(&ta).mul(&b.a), live: true })?;
        l.backward().s()?;
        both(x, "leaf", le, &ls)
    });
    // the gradient of a leaf survives the graph, the loss and the context it came from
    cs.add("kept", |x| {
        let ls = leaves(x, &[2])?;
        let le;
        {
            let _g = GradientContext::new();
            let a = &ls.v[0];
            let (l, e) = loss(x, &N { t: a.t.square().s()?, a: a.a.mul(&a.a), live: true })?;
            l.backward().s()?;
            le = e;
        }
        let (u, _) = x.tensor_in(&[2], 0.5, 2.0);
        let _ = u.square().s()?;
        x.grad("a", le, &ls.v[0].t, &ls.v[0].a)?;
        none(x, "b", &ls.v[1].t);
        // and can itself be computed with
        let g = ls.v[0].t.grad().s()?;
        let h = g.add(&ls.v[0].t).s()?.sub(&ls.v[0].t).s()?;
        let (p, q) = (from_t(&g)?, from_t(&h)?);
        x.eq_e("used", &q.d, &p.d);
        Ok(())
    });
    // a pass that fails leaves the engine usable
    cs.add("after-error", |x| {
        let ls = leaves(x, &[2])?;
        let t = ls.v[2].t.square().s()?;
        x.check("fails", t.backward().is_err(), "backward without a graph succeeds");
        let (l, le) = loss(x, &N { t: ls.v[0].t.square().s()?, a: ls.v[0].a.mul(&ls.v[0].a), live: true })?;
        l.backward().s()?;
        x.grad("a", le, &ls.v[0].t, &ls.v[0].a)
    });
}
