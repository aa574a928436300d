//! P27 layers: values, gradients and the statistics they keep
use super::indexing::itensor;
use super::linear::{bmm, conv, convt, CP};
use super::util::*;
use crate::ir::*;
use hodu_core::{tensor::Tensor, types::DType};
use hodu_nn::{eval, module::Module, train, *};

fn dt(x: &Cx) -> DType {
    if x.f64 {
        DType::F64
    } else {
        DType::F32
    }
}
/// give every parameter of a layer symbolic contents
fn params(x: &mut Cx, ps: Vec<&Tensor>, lo: f64, hi: f64) -> Result<Vec<In>, String> {
    let mut v = vec![];
    for p in ps {
        let (t, a) = x.tensor_in(&p.shape().to_vec(), lo, hi);
        p.set_(&t).s()?;
        x.check("trainable", p.is_requires_grad(), "parameter does not require a gradient");
        v.push(In { leaf: p.clone(), la: a.clone(), t: p.clone(), a });
    }
    Ok(v)
}
fn none() -> Vec<Tensor> {
    vec![]
}
/// x @ w^T + b
fn affine(x: &Arr, w: &Arr, b: Option<&Arr>) -> Arr {
    let y = if x.shape.len() == 1 { bmm(&x.reshape(&[1, x.shape[0]]), &w.t()).reshape(&[w.shape[0]]) } else { bmm(x, &w.t()) };
    match b {
        Some(b) => y.add(b),
        None => y,
    }
}
fn tag(f: bool) -> &'static str {
    if f {
        "f64"
    } else {
        "f32"
    }
}

fn linears(cs: &mut Cases) {
    for f in [false, true] {
        for bias in [false, true] {
            for (s, l, o) in [
                (vec![2usize, 3], Lay::Plain, 2usize),
                (vec![1, 2], Lay::Step, 3),
                (vec![3, 2], Lay::T, 1),
                (vec![2, 2, 2], Lay::Off, 3),
                (vec![3], Lay::Plain, 2),
                (vec![2, 1, 2, 2], Lay::Plain, 2),
            ] {
                cs.add(format!("linear/{:?}/{:?}/o{}b{}/{}", s, l, o, bias as u8, tag(f)).replace(' ', ""), move |x| {
                    x.f64 = f;
                    let m = Linear::new(*s.last().unwrap(), o, bias, dt(x)).s()?;
                    let ps = params(x, Module::parameters(&m), -2.0, 2.0)?;
                    x.check("parameters", ps.len() == 1 + bias as usize, "parameter count");
                    let i = input(x, &s, l, -2.0, 2.0, true)?;
                    let y = m.forward(&i.t).s()?;
                    let want = affine(&i.a, &ps[0].a, ps.get(1).map(|p| &p.a));
                    let mut ins = vec![&i];
                    ins.extend(&ps);
                    grads(x, "g", &ins, &y, &want)
                });
            }
        }
    }
}

fn dropouts(cs: &mut Cases) {
    for f in [false, true] {
        for p in [0.5f32, 0.25, 0.8] {
            cs.add(format!("dropout/eval/{}/{}", p, tag(f)), move |x| {
                x.f64 = f;
                eval!();
                let i = input(x, &[2, 3], Lay::T, -2.0, 2.0, true)?;
                let m = Dropout::new(p);
                x.check("parameters", Module::parameters(&m).is_empty(), "dropout has no parameters");
                let y = m.forward(&i.t).s()?;
                let r = grads(x, "g", &[&i], &y, &i.a);
                train!();
                r
            });
            cs.add(format!("dropout/train/{}/{}", p, tag(f)), move |x| {
                x.f64 = f;
                train!();
                let i = input(x, &[3, 4], Lay::Plain, 0.5, 2.0, true)?;
                let y = Dropout::new(p).forward(&i.t).s()?;
                let g = from_t(&y)?;
                x.check("shape", g.shape == i.a.shape, "shape");
                let k = 1.0 / (1.0 - p);
                for (n, (o, v)) in g.d.iter().zip(&i.a.d).enumerate() {
                    // dropped, or scaled by 1 / (1 - p) up to rounding
                    let r = *v * c(k as f64);
                    let near = o.gt(r * c(0.99999)).and(o.lt(r * c(1.00001)));
                    x.assert(&format!("element{}", n), o.eq(c(0.0)).or(near));
                }
                y.sum_all().s()?.backward().s()?;
                x.grad("mask", g.sum_all(), &i.leaf, &i.la)
            });
        }
        cs.add(format!("dropout/all/{}", tag(f)), move |x| {
            x.f64 = f;
            train!();
            let i = input(x, &[2, 3], Lay::Plain, -2.0, 2.0, false)?;
            let y = Dropout::new(1.0f32).forward(&i.t).s()?;
            x.eq("value", &y, &Arr::full(&[2, 3], c(0.0)))
        });
    }
}

fn embeddings(cs: &mut Cases) {
    for f in [false, true] {
        for (s, l, ix) in [
            (vec![3usize], Lay::Plain, vec![2, 0, 2]),
            (vec![2, 2], Lay::T, vec![1, 3, 3, 0]),
            (vec![1], Lay::Off, vec![1]),
            (vec![2, 1, 2], Lay::Step, vec![0, 1, 2, 3]),
        ] {
            for pad in [None, Some(1usize), Some(3)] {
                for mn in [None, Some(1.0f32), Some(0.5)] {
                    let (s, ix) = (s.clone(), ix.clone());
                    cs.add(format!("embedding/{:?}/{:?}/{:?}/{:?}/{:?}/{}", s, l, ix, pad, mn, tag(f)).replace(' ', ""), move |x| {
                        x.f64 = f;
                        let m = Embedding::new(4, 2, pad, mn, 2.0f32, dt(x)).s()?;
                        // the padding row starts out as zeros
                        if let Some(p) = pad {
                            let w = from_t(m.weight())?;
                            x.check("padding", (0..2).all(|j| w.at(&[p, j]).0 == 0.0), "the padding row is not zero");
                        }
                        let ps = params(x, Module::parameters(&m), 0.1, 1.0)?;
                        let w = &ps[0];
                        let y = m.forward(&itensor(&s, l, &ix)?).s()?;
                        let mut ys = s.clone();
                        ys.push(2);
                        let flat = Arr::gen(&[ix.len(), 2], |q| {
                            let r = ix[q[0]] as usize;
                            if Some(r) == pad {
                                return c(0.0);
                            }
                            let v = w.a.at(&[r, q[1]]);
                            match mn {
                                None => v,
                                Some(n) => {
                                    let k = c(n as f64) / (w.a.at(&[r, 0]) * w.a.at(&[r, 0]) + w.a.at(&[r, 1]) * w.a.at(&[r, 1])).sqrt();
                                    v * k.min(c(1.0))
                                }
                            }
                        });
                        grads(x, "g", &[w], &y, &flat.reshape(&ys))
                    });
                }
            }
        }
        cs.add(format!("embedding/pretrained/{}", tag(f)), move |x| {
            x.f64 = f;
            let w = input(x, &[3, 2], Lay::Plain, -2.0, 2.0, false)?;
            let m = Embedding::from_pretrained(w.t.clone(), false).s()?;
            let y = m.forward(&itensor(&[2], Lay::Plain, &[2, 1])?).s()?;
            grads(x, "g", &[&w], &y, &Arr::gen(&[2, 2], |q| w.a.at(&[2 - q[0], q[1]])))?;
            let z = input(x, &[3, 2], Lay::Plain, -2.0, 2.0, false)?;
            let m = Embedding::from_pretrained(z.t.clone(), true).s()?;
            let y = m.forward(&itensor(&[1], Lay::Plain, &[0])?).s()?;
            x.eq("frozen", &y, &Arr::gen(&[1, 2], |q| z.a.at(&[0, q[1]])))?;
            x.check("frozen", !y.is_requires_grad(), "frozen embedding requires a gradient");
            Ok(())
        });
    }
}

/// (x - mean) / sqrt(var + eps) with moments over `axes`
fn standard(a: &Arr, axes: &[usize], eps: f64) -> (Arr, Arr, Arr) {
    let mu = a.mean(axes, true);
    let d = a.sub(&mu);
    let var = d.mul(&d).mean(axes, true);
    let y = d.div(&var.map(|v| (v + c(eps)).sqrt()));
    (y, mu, var)
}
fn channel(p: &Arr, n: usize) -> Arr {
    let mut s = vec![1; n];
    s[1] = p.d.len();
    p.reshape(&s)
}
fn scaled(y: Arr, ps: &[In], n: usize) -> Arr {
    if ps.is_empty() {
        y
    } else {
        y.mul(&channel(&ps[0].a, n)).add(&channel(&ps[1].a, n))
    }
}
const EPS: f64 = 0.125;

enum Bn {
    D1(BatchNorm1D),
    D2(BatchNorm2D),
    D3(BatchNorm3D),
}
impl Bn {
    fn new(d: usize, n: usize, mom: f32, affine: bool, t: DType) -> Result<Bn, String> {
        let e = EPS as f32;
        Ok(match d {
            4 => Bn::D2(BatchNorm2D::new(n, e, mom, affine, t).s()?),
            5 => Bn::D3(BatchNorm3D::new(n, e, mom, affine, t).s()?),
            _ => Bn::D1(BatchNorm1D::new(n, e, mom, affine, t).s()?),
        })
    }
    fn m(&self) -> &dyn for<'a> Module<&'a Tensor> {
        match self {
            Bn::D1(m) => m,
            Bn::D2(m) => m,
            Bn::D3(m) => m,
        }
    }
}
fn norms(cs: &mut Cases) {
    for f in [false, true] {
        for affine in [false, true] {
            for s in [vec![2usize, 2], vec![3, 1], vec![2, 2, 2], vec![1, 2, 2], vec![1, 1, 2, 2], vec![2, 2, 1, 2], vec![1, 2, 2, 1, 2], vec![2, 1, 1, 2, 1]] {
                let n = s.len();
                let axes: Vec<usize> = (0..n).filter(|&k| k != 1).collect();
                let s2 = s.clone();
                let ax = axes.clone();
                cs.add(format!("batchnorm/train/{:?}/{}/{}", s, affine, tag(f)).replace(' ', ""), move |x| {
                    x.f64 = f;
                    train!();
                    let m = Bn::new(n, s2[1], 0.75, affine, dt(x))?;
                    let ps = params(x, m.m().parameters(), -2.0, 2.0)?;
                    let i = input(x, &s2, Lay::T, -2.0, 2.0, true)?;
                    let want = scaled(standard(&i.a, &ax, EPS).0, &ps, n);
                    let y = m.m().forward(&i.t).s()?;
                    let mut ins = vec![&i];
                    ins.extend(&ps);
                    grads(x, "g", &ins, &y, &want)
                });
                let s2 = s.clone();
                cs.add(format!("batchnorm/history/{:?}/{}/{}", s, affine, tag(f)).replace(' ', ""), move |x| {
                    x.f64 = f;
                    let mom = 0.75f32;
                    let m = Bn::new(n, s2[1], mom, affine, dt(x))?;
                    let ps = params(x, m.m().parameters(), -2.0, 2.0)?;
                    let (mut rm, mut rv) = (Arr::full(&[s2[1]], c(0.0)), Arr::full(&[s2[1]], c(1.0)));
                    let evaluate = |x: &mut Cx, k: usize, rm: &Arr, rv: &Arr| -> R {
                        eval!();
                        let i = input(x, &s2, Lay::Plain, -2.0, 2.0, true)?;
                        let want = scaled(i.a.sub(&channel(rm, n)).div(&channel(rv, n).map(|v| (v + c(EPS)).sqrt())), &ps, n);
                        let y = m.m().forward(&i.t).s()?;
                        grads(x, &format!("eval{}", k), &[&i], &y, &want)?;
                        train!();
                        Ok(())
                    };
                    evaluate(x, 0, &rm, &rv)?;
                    for k in 1..=2 {
                        train!();
                        let i = input(x, &s2, if k == 1 { Lay::Plain } else { Lay::Step }, -2.0, 2.0, k == 1)?;
                        let (y, mu, var) = standard(&i.a, &axes, EPS);
                        let y2 = m.m().forward(&i.t).s()?;
                        x.eq(&format!("train{}", k), &y2, &scaled(y, &ps, n))?;
                        let q = mom as f64;
                        rm = rm.scale(q).add(&mu.reshape(&[s2[1]]).scale(1.0 - q));
                        rv = rv.scale(q).add(&var.reshape(&[s2[1]]).scale(1.0 - q));
                        evaluate(x, k, &rm, &rv)?;
                    }
                    Ok(())
                });
            }
            // instance and group normalisation
            for s in [vec![2usize, 2, 2], vec![1, 2, 3], vec![1, 2, 2, 1], vec![2, 1, 1, 2], vec![1, 2, 1, 2, 1]] {
                let n = s.len();
                for groups in [0usize, 1, 2] {
                    let s = s.clone();
                    if groups == 2 && s[1] != 2 {
                        continue;
                    }
                    cs.add(format!("{}norm/{:?}/g{}/{}/{}", if groups == 0 { "instance" } else { "group" }, s, groups, affine, tag(f)).replace(' ', ""), move |x| {
                        x.f64 = f;
                        let e = EPS as f32;
                        let (m1, m2, m3, mg);
                        let m: &dyn for<'a> Module<&'a Tensor> = match (groups, n) {
                            (0, 3) => {
                                m1 = InstanceNorm1D::new(s[1], e, affine, dt(x)).s()?;
                                &m1
                            }
                            (0, 4) => {
                                m2 = InstanceNorm2D::new(s[1], e, affine, dt(x)).s()?;
                                &m2
                            }
                            (0, _) => {
                                m3 = InstanceNorm3D::new(s[1], e, affine, dt(x)).s()?;
                                &m3
                            }
                            _ => {
                                mg = GroupNorm::new(groups, s[1], e, affine, dt(x)).s()?;
                                &mg
                            }
                        };
                        let ps = params(x, m.parameters(), -2.0, 2.0)?;
                        let i = input(x, &s, Lay::T, -2.0, 2.0, true)?;
                        let g = if groups == 0 { s[1] } else { groups };
                        let mut gs = vec![s[0], g, s[1] / g];
                        gs.extend(&s[2..]);
                        let ax: Vec<usize> = (2..gs.len()).collect();
                        let want = scaled(standard(&i.a.reshape(&gs), &ax, EPS).0.reshape(&s), &ps, n);
                        let y = m.forward(&i.t).s()?;
                        let mut ins = vec![&i];
                        ins.extend(&ps);
                        grads(x, "g", &ins, &y, &want)
                    });
                }
            }
            for (s, ns) in [(vec![2usize, 3], vec![3usize]), (vec![2, 2, 2], vec![2]), (vec![2, 1, 3], vec![1, 3]), (vec![3], vec![3]), (vec![2, 2], vec![2, 2])] {
                for rms in [false, true] {
                    if rms && affine {
                        continue;
                    }
                    let (s, ns) = (s.clone(), ns.clone());
                    cs.add(format!("{}norm/{:?}/{:?}/{}/{}", if rms { "rms" } else { "layer" }, s, ns, affine, tag(f)).replace(' ', ""), move |x| {
                        x.f64 = f;
                        let ax: Vec<usize> = (s.len() - ns.len()..s.len()).collect();
                        let i = input(x, &s, Lay::T, -2.0, 2.0, true)?;
                        if rms {
                            let m = RMSNorm::new(ns.clone(), EPS as f32, dt(x)).s()?;
                            let ps = params(x, Module::parameters(&m), -2.0, 2.0)?;
                            let y = m.forward(&i.t).s()?;
                            let r = i.a.mul(&i.a).mean(&ax, true).map(|v| (v + c(EPS)).sqrt());
                            return grads(x, "g", &[&i, &ps[0]], &y, &i.a.div(&r).mul(&ps[0].a));
                        }
                        let m = LayerNorm::new(ns.clone(), EPS as f32, affine, dt(x)).s()?;
                        let ps = params(x, Module::parameters(&m), -2.0, 2.0)?;
                        let y = m.forward(&i.t).s()?;
                        let mut want = standard(&i.a, &ax, EPS).0;
                        if affine {
                            want = want.mul(&ps[0].a).add(&ps[1].a);
                        }
                        let mut ins = vec![&i];
                        ins.extend(&ps);
                        grads(x, "g", &ins, &y, &want)
                    });
                }
            }
        }
    }
}

fn activations(cs: &mut Cases) {
    fn sp(x: E) -> E {
        (c(1.0) + x.exp()).ln()
    }
    macro_rules! act {
        ($n:expr, $m:expr, $kink:expr, $r:expr) => {
            for f in [false, true] {
                cs.add(format!("activation/{}/{}", $n, tag(f)), move |x| {
                    x.f64 = f;
                    eval!();
                    let i = input(x, &[2, 2], Lay::Step, -2.0, 2.0, true)?;
                    if $kink {
                        for v in &i.a.d {
                            x.differs(*v, 0.0);
                        }
                    }
                    let m = $m;
                    x.check("parameters", Module::parameters(&m).is_empty(), "no parameters expected");
                    let y = m.forward(&i.t).s()?;
                    let r: fn(E) -> E = $r;
                    let out = grads(x, "g", &[&i], &y, &i.a.map(r));
                    train!();
                    out
                });
            }
        };
    }
    act!("relu", ReLU::new(), true, |x| x.relu());
    act!("sigmoid", Sigmoid::new(), false, |x| x.sigmoid());
    act!("tanh", Tanh::new(), false, |x| x.tanh());
    act!("gelu", Gelu::new(), false, |x| c(0.5) * x * (c(1.0) + (c(0.7978845608028654) * (x + c(0.044715) * x * x * x)).tanh()));
    act!("softplus", Softplus::new(), false, sp);
    act!("silu", SiLU::new(), false, |x| x * x.sigmoid());
    act!("swish", Swish::new(), false, |x| x * x.sigmoid());
    act!("mish", Mish::new(), false, |x| x * sp(x).tanh());
    act!("leakyrelu", LeakyReLU::new(0.25f32), true, |x| E::sel_lt(c(0.0), x, x, c(0.25) * x));
    act!("elu", ELU::new(0.5f32), true, |x| E::sel_lt(c(0.0), x, x, c(0.5) * (x.exp() - c(1.0))));
    act!("prelu", PReLU::new(0.25f32), true, |x| E::sel_lt(c(0.0), x, x, c(0.25) * x));
    act!("rrelu", RReLU::new(0.125f32, 0.375f32), true, |x| E::sel_lt(c(0.0), x, x, c(0.25) * x));
    for f in [false, true] {
        cs.add(format!("activation/rrelu-train/{}", tag(f)), move |x| {
            x.f64 = f;
            train!();
            let p = x.tensor_in(&[2, 2], 0.5, 2.0);
            let n = x.tensor_in(&[2, 2], -2.0, -0.5);
            let m = RReLU::new(0.125f32, 0.375f32);
            x.eq("positive", &m.forward(&p.0).s()?, &p.1)?;
            let y = from_t(&m.forward(&n.0).s()?)?;
            for (k, (o, v)) in y.d.iter().zip(&n.1.d).enumerate() {
                x.assert(&format!("negative{}", k), o.le(*v * c(0.1249)).and(o.ge(*v * c(0.3751))));
            }
            Ok(())
        });
    }
}

fn convs(cs: &mut Cases) {
    macro_rules! case {
        ($tr:expr, $ty:ident, $sp:expr, $k:expr, $cp:expr, $mk:expr) => {
            for bias in [false, true] {
                for f in [false, true] {
                    let (sp, k, p): (Vec<usize>, usize, CP) = ($sp, $k, $cp);
                    let (b, ci, co) = if sp.len() == 1 { (2, 2, 3) } else { (1, 2, 2) };
                    cs.add(format!("{}/{:?}/k{}s{}p{}d{}o{}b{}/{}", stringify!($ty), sp, k, p.s, p.p, p.d, p.op, bias as u8, tag(f)).replace(' ', ""), move |x| {
                        x.f64 = f;
                        let mk: fn(usize, usize, usize, CP, bool, DType) -> hodu_core::error::HoduResult<$ty> = $mk;
                        let m = mk(ci, co, k, p, bias, dt(x)).s()?;
                        let ps = params(x, Module::parameters(&m), -2.0, 2.0)?;
                        let mut s = vec![b, ci];
                        s.extend(&sp);
                        let i = input(x, &s, Lay::T, -2.0, 2.0, true)?;
                        let y = m.forward(&i.t).s()?;
                        let mut want = if $tr { convt(&i.a, &ps[0].a, p) } else { conv(&i.a, &ps[0].a, p) };
                        if bias {
                            want = want.add(&channel(&ps[1].a, s.len()));
                        }
                        let mut ins = vec![&i];
                        ins.extend(&ps);
                        grads(x, "g", &ins, &y, &want)
                    });
                }
            }
        };
    }
    for (s, p, d) in [(1, 0, 1), (2, 1, 1), (1, 1, 2)] {
        let q = CP { s, p, d, op: 0 };
        case!(false, Conv1D, vec![4], 2, q, |ci, co, k, q, b, t| Conv1D::new(ci, co, k, q.s, q.p, q.d, b, t));
        case!(false, Conv2D, vec![3, 4], 2, q, |ci, co, k, q, b, t| Conv2D::new(ci, co, k, q.s, q.p, q.d, b, t));
        case!(false, Conv3D, vec![2, 3, 2], if d == 2 { 1 } else { 2 }, q, |ci, co, k, q, b, t| Conv3D::new(ci, co, k, q.s, q.p, q.d, b, t));
    }
    for (s, p, d, op) in [(1, 0, 1, 0), (2, 1, 1, 1), (2, 0, 2, 1)] {
        let q = CP { s, p, d, op };
        case!(true, ConvTranspose1D, vec![3], 2, q, |ci, co, k, q, b, t| ConvTranspose1D::new(ci, co, k, q.s, q.p, q.op, q.d, b, t));
        case!(true, ConvTranspose2D, vec![2, 3], 2, q, |ci, co, k, q, b, t| ConvTranspose2D::new(ci, co, k, q.s, q.p, q.op, q.d, b, t));
        case!(true, ConvTranspose3D, vec![1, 2, 2], if d == 2 { 1 } else { 2 }, q, |ci, co, k, q, b, t| ConvTranspose3D::new(ci, co, k, q.s, q.p, q.op, q.d, b, t));
    }
}

/// softmax(q k^T / sqrt(d)) v over the allowed keys
fn attend(q: &Arr, k: &Arr, v: &Arr, ok: &dyn Fn(&[usize]) -> bool) -> Arr {
    let n = q.shape.len();
    let d = q.shape[n - 1] as f64;
    let s = bmm(q, &k.t()).scale(1.0 / d.sqrt());
    let (lq, lk) = (s.shape[n - 2], s.shape[n - 1]);
    let mut w = s.clone();
    for bi in indices(&s.shape[..n - 2]) {
        for i in 0..lq {
            let at = |j: usize| {
                let mut p = bi.clone();
                p.extend([i, j]);
                p
            };
            let al: Vec<usize> = (0..lk).filter(|&j| ok(&at(j))).collect();
            let tot: E = al.iter().map(|&j| s.at(&at(j)).exp()).sum();
            for j in 0..lk {
                w.set(&at(j), if al.contains(&j) { s.at(&at(j)).exp() / tot } else { c(0.0) });
            }
        }
    }
    bmm(&w, v)
}
fn attentions(cs: &mut Cases) {
    for f in [false, true] {
        for (lead, lq, lk, d, dv) in [(vec![], 2usize, 2usize, 2usize, 1usize), (vec![2], 1, 2, 1, 2), (vec![1, 2], 2, 3, 2, 1), (vec![2], 3, 2, 1, 1), (vec![], 2, 2, 3, 1)] {
            for mode in ["free", "causal", "mask", "boolmask", "both"] {
                let lead: Vec<usize> = lead.clone();
                cs.add(format!("attention/{:?}/{}x{}d{}v{}/{}/{}", lead, lq, lk, d, dv, mode, tag(f)).replace(' ', ""), move |x| {
                    x.f64 = f;
                    eval!();
                    let sh = |a: usize, b: usize| {
                        let mut s = lead.clone();
                        s.extend([a, b]);
                        s
                    };
                    let q = input(x, &sh(lq, d), Lay::Plain, -1.0, 1.0, true)?;
                    let k = input(x, &sh(lk, d), Lay::T, -1.0, 1.0, true)?;
                    let v = input(x, &sh(lk, dv), Lay::Step, -1.0, 1.0, true)?;
                    let causal = mode == "causal" || mode == "both";
                    // key 1 is hidden from query 0, the last key from the others
                    let hidden = move |i: usize, j: usize| if i == 0 { j == 1 && lk > 1 } else { j == lk - 1 && lk > 1 };
                    let mut mt = None;
                    if mode == "mask" || mode == "both" || mode == "boolmask" {
                        let m = Arr::gen(&[lq, lk], |p| c(if hidden(p[0], p[1]) { 0.0 } else { 1.0 }));
                        let m = x.mk(&m);
                        mt = Some(if mode == "boolmask" { m.to_dtype(DType::BOOL).s()? } else { m });
                    }
                    let masked = mt.is_some();
                    let ok = move |p: &[usize]| {
                        let (i, j) = (p[p.len() - 2], p[p.len() - 1]);
                        !(causal && j > i) && !(masked && hidden(i, j))
                    };
                    let y = scaled_dot_product_attention(&q.t, &k.t, &v.t, mt.as_ref(), 0.5, causal).s()?;
                    let want = attend(&q.a, &k.a, &v.a, &ok);
                    train!();
                    grads(x, "g", &[&q, &k, &v], &y, &want)
                });
            }
        }
        for (e, h, bias, kd, vd) in [(2usize, 1usize, true, None, None), (2, 2, false, None, None), (4, 2, true, None, None), (2, 2, true, Some(1usize), Some(3usize))] {
            for causal in [false, true] {
                for masked in [false, true] {
                    cs.add(format!("multihead/e{}h{}b{}k{:?}v{:?}/{}{}/{}", e, h, bias as u8, kd, vd, if causal { "causal" } else { "" }, if masked { "masked" } else { "" }, tag(f)), move |x| {
                        x.f64 = f;
                        let m = MultiheadAttention::new(e, h, 0.0, bias, kd, vd, dt(x)).s()?;
                        let ps = params(x, Module::parameters(&m), -1.0, 1.0)?;
                        let (b, l, sl) = (1usize, 2usize, if causal { 2usize } else { 3 });
                        let q = x.tensor_in(&[b, l, e], -1.0, 1.0);
                        let k = x.tensor_in(&[b, sl, kd.unwrap_or(e)], -1.0, 1.0);
                        let v = x.tensor_in(&[b, sl, vd.unwrap_or(e)], -1.0, 1.0);
                        let mask = Arr::gen(&[l, sl], |p| c(if p[0] == 1 && p[1] == 0 { 0.0 } else { 1.0 }));
                        let mt = x.mk(&mask);
                        let y = m.forward_qkv(&q.0, &k.0, &v.0, if masked { Some(&mt) } else { None }, causal).s()?;
                        let bi = |j: usize| if bias { Some(&ps[4 + j].a) } else { None };
                        let dh = e / h;
                        let split = |a: Arr, l: usize| a.reshape(&[b, l, h, dh]).permute(&[0, 2, 1, 3]);
                        let qa = split(affine(&q.1, &ps[0].a, bi(0)), l);
                        let ka = split(affine(&k.1, &ps[1].a, bi(1)), sl);
                        let va = split(affine(&v.1, &ps[2].a, bi(2)), sl);
                        let o = attend(&qa, &ka, &va, &move |p| !(causal && p[3] > p[2]) && !(masked && p[2] == 1 && p[3] == 0));
                        let o = o.permute(&[0, 2, 1, 3]).reshape(&[b, l, e]);
                        x.eq("value", &y, &affine(&o, &ps[3].a, bi(3)))
                    });
                }
            }
        }
        cs.add(format!("multihead/self/{}", tag(f)), move |x| {
            x.f64 = f;
            let m = MultiheadAttention::new(2, 2, 0.0, false, None, None, dt(x)).s()?;
            let ps = params(x, Module::parameters(&m), -1.0, 1.0)?;
            let (t, a) = x.tensor_in(&[2, 2, 2], -1.0, 1.0);
            let split = |a: Arr| a.reshape(&[2, 2, 2, 1]).permute(&[0, 2, 1, 3]);
            let pr = |k: usize| split(affine(&a, &ps[k].a, None));
            let o = attend(&pr(0), &pr(1), &pr(2), &|_| true).permute(&[0, 2, 1, 3]).reshape(&[2, 2, 2]);
            x.eq("value", &Module::forward(&m, &t).s()?, &affine(&o, &ps[3].a, None))
        });
    }
}

/// one step of a cell: (h, c) from the input row, the state and [w_ih, w_hh, b_ih, b_hh]
fn cell(kind: &str, xt: &Arr, h: &Arr, cc: &Arr, p: &[In]) -> (Arr, Arr) {
    let n = h.shape[1];
    let gi = affine(xt, &p[0].a, p.get(2).map(|p| &p.a));
    let gh = affine(h, &p[1].a, p.get(3).map(|p| &p.a));
    let part = |a: &Arr, k: usize| Arr::gen(&[h.shape[0], n], |ix| a.at(&[ix[0], k * n + ix[1]]));
    match kind {
        "tanh" => (gi.add(&gh).map(|v| v.tanh()), cc.clone()),
        "relu" => (gi.add(&gh).map(|v| v.relu()), cc.clone()),
        "lstm" => {
            let g = gi.add(&gh);
            let (i, f, z, o) = (part(&g, 0).map(|v| v.sigmoid()), part(&g, 1).map(|v| v.sigmoid()), part(&g, 2).map(|v| v.tanh()), part(&g, 3).map(|v| v.sigmoid()));
            let c2 = f.mul(cc).add(&i.mul(&z));
            (o.mul(&c2.map(|v| v.tanh())), c2)
        }
        _ => {
            let r = part(&gi, 0).add(&part(&gh, 0)).map(|v| v.sigmoid());
            let z = part(&gi, 1).add(&part(&gh, 1)).map(|v| v.sigmoid());
            let m = part(&gi, 2).add(&r.mul(&part(&gh, 2))).map(|v| v.tanh());
            let one = Arr::full(&z.shape, c(1.0));
            (one.sub(&z).mul(&m).add(&z.mul(h)), cc.clone())
        }
    }
}
fn recurrent(cs: &mut Cases) {
    for kind in ["tanh", "relu", "lstm", "gru"] {
        for f in [false, true] {
            for bias in [false, true] {
                // single steps, with gradients
                cs.add(format!("cell/{}/b{}/{}", kind, bias as u8, tag(f)), move |x| {
                    x.f64 = f;
                    let (ni, nh, b) = (2usize, if kind == "tanh" { 2usize } else { 1 }, if kind == "relu" { 1 } else { 2usize });
                    let (r, l, g);
                    let m: &dyn for<'a> Module<&'a Tensor> = match kind {
                        "lstm" => {
                            l = Some(LSTMCell::new(ni, nh, bias, dt(x)).s()?);
                            (r, g) = (None, None);
                            l.as_ref().unwrap()
                        }
                        "gru" => {
                            g = Some(GRUCell::new(ni, nh, bias, dt(x)).s()?);
                            (r, l) = (None, None);
                            g.as_ref().unwrap()
                        }
                        _ => {
                            r = Some(RNNCell::new(ni, nh, bias, if kind == "tanh" { Nonlinearity::Tanh } else { Nonlinearity::ReLU }, dt(x)).s()?);
                            (l, g) = (None, None);
                            r.as_ref().unwrap()
                        }
                    };
                    let ps = params(x, m.parameters(), -1.0, 1.0)?;
                    x.check("parameters", ps.len() == if bias { 4 } else { 2 }, "parameter count");
                    let i = input(x, &[b, ni], Lay::T, -1.0, 1.0, true)?;
                    let h = input(x, &[b, nh], Lay::Step, -1.0, 1.0, true)?;
                    let cc = input(x, &[b, nh], Lay::Plain, -1.0, 1.0, true)?;
                    let (wh, wc) = cell(kind, &i.a, &h.a, &cc.a, &ps);
                    let mut ins = vec![&i, &h];
                    ins.extend(&ps);
                    if let Some(l) = &l {
                        let (h2, c2) = l.forward_step(&i.t, &h.t, &cc.t).s()?;
                        x.eq("cell", &c2, &wc)?;
                        ins.push(&cc);
                        return grads(x, "g", &ins, &h2, &wh);
                    }
                    let y = match (&r, &g) {
                        (Some(r), _) => r.forward_step(&i.t, &h.t).s()?,
                        (_, Some(g)) => g.forward_step(&i.t, &h.t).s()?,
                        _ => unreachable!(),
                    };
                    grads(x, "g", &ins, &y, &wh)
                });
                for (layers, bf, init, seq) in [(1usize, false, false, 2usize), (1, true, true, 2), (2, false, true, 2), (2, true, false, 1), (1, false, true, 3)] {
                    if kind == "relu" && seq > 2 {
                        continue;
                    }
                    cs.add(format!("sequence/{}/l{}{}{}/seq{}b{}/{}", kind, layers, if bf { "batchfirst" } else { "" }, if init { "init" } else { "" }, seq, bias as u8, tag(f)), move |x| {
                        x.f64 = f;
                        let (ni, nh) = if kind == "relu" { (1usize, 1usize) } else { (2, 2) };
                        let b = if kind == "relu" { 1usize } else { 2 };
                        let sh: &[usize] = if bf { &[b, seq, ni] } else { &[seq, b, ni] };
                        let (t, a) = laid(x, sh, if bf { Lay::Step } else { Lay::Plain }, -1.0, 1.0)?;
                        let a = if bf { a.permute(&[1, 0, 2]) } else { a };
                        let (h0, ha) = x.tensor_in(&[layers, b, nh], -1.0, 1.0);
                        let (c0, ca) = x.tensor_in(&[layers, b, nh], -1.0, 1.0);
                        let (hi, ci) = if init { (Some(&h0), Some(&c0)) } else { (None, None) };
                        let ps;
                        let (y, hn, cn) = match kind {
                            "lstm" => {
                                let m = LSTM::new(ni, nh, layers, bias, bf, dt(x)).s()?;
                                ps = params(x, Module::parameters(&m), -1.0, 1.0)?;
                                let (y, h, cx) = m.forward_with_state(&t, hi, ci).s()?;
                                (y, h, Some(cx))
                            }
                            "gru" => {
                                let m = GRU::new(ni, nh, layers, bias, bf, dt(x)).s()?;
                                ps = params(x, Module::parameters(&m), -1.0, 1.0)?;
                                let (y, h) = m.forward_with_state(&t, hi).s()?;
                                (y, h, None)
                            }
                            _ => {
                                let m = RNN::new(ni, nh, layers, bias, bf, if kind == "tanh" { Nonlinearity::Tanh } else { Nonlinearity::ReLU }, dt(x)).s()?;
                                ps = params(x, Module::parameters(&m), -1.0, 1.0)?;
                                let (y, h) = m.forward_with_state(&t, hi).s()?;
                                (y, h, None)
                            }
                        };
                        let per = if bias { 4 } else { 2 };
                        x.check("parameters", ps.len() == per * layers, "parameter count");
                        let at = |s: &Arr, l: usize| Arr::gen(&[b, nh], |ix| if init { s.at(&[l, ix[0], ix[1]]) } else { c(0.0) });
                        let mut hs: Vec<Arr> = (0..layers).map(|l| at(&ha, l)).collect();
                        let mut cx: Vec<Arr> = (0..layers).map(|l| at(&ca, l)).collect();
                        let mut outs = vec![];
                        for s in 0..seq {
                            let mut v = Arr::gen(&[b, ni], |ix| a.at(&[s, ix[0], ix[1]]));
                            for l in 0..layers {
                                let (h2, c2) = cell(kind, &v, &hs[l], &cx[l], &ps[l * per..(l + 1) * per]);
                                hs[l] = h2.clone();
                                cx[l] = c2;
                                v = h2;
                            }
                            outs.push(v);
                        }
                        let stack = |v: &[Arr]| Arr::gen(&[v.len(), b, nh], |ix| v[ix[0]].at(&ix[1..]));
                        let want = stack(&outs);
                        x.eq("output", &y, &if bf { want.permute(&[1, 0, 2]) } else { want })?;
                        x.eq("hidden", &hn, &stack(&hs))?;
                        if let Some(cn) = cn {
                            x.eq("cell", &cn, &stack(&cx))?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

/// every parameterless layer can be asked for its parameters
fn parameterless(cs: &mut Cases) {
    cs.add("parameters/losses", |x| {
        use hodu_nn::prelude::{CosineEmbeddingLoss, KLDivLoss, SmoothL1Loss};
        fn n<'a, M: Module<(&'a Tensor, &'a Tensor)>>(m: &M) -> usize {
            m.parameters().len()
        }
        fn n3<'a, M: Module<(&'a Tensor, &'a Tensor, &'a Tensor)>>(m: &M) -> usize {
            m.parameters().len()
        }
        let v = [
            n(&MSELoss::new()),
            n(&MAELoss::new()),
            n(&HuberLoss::new(1.0f32)),
            n(&BCELoss::new()),
            n(&BCEWithLogitsLoss::new()),
            n(&CrossEntropyLoss::new()),
            n(&NLLLoss::new()),
            n(&KLDivLoss::new()),
            n(&SmoothL1Loss::new()),
            n3(&CosineEmbeddingLoss::new()),
        ];
        x.check("count", v.iter().all(|&k| k == 0), "a loss has no parameters");
        let _ = none();
        Ok(())
    });
}

pub fn layers(cs: &mut Cases) {
    linears(cs);
    dropouts(cs);
    embeddings(cs);
    norms(cs);
    activations(cs);
    convs(cs);
    attentions(cs);
    recurrent(cs);
    parameterless(cs);
}
