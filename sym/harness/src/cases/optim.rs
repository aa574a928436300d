//! P29 optimizers: histories of backward, zero_grad and step with symbolic gradients
use crate::ir::*;
use hodu_core::tensor::Tensor;
use hodu_nn::{optimizer::Optimizer, *};

type Step = Box<dyn FnMut(usize, f64, &[Arr], &mut [Arr])>;

/// What happens before each step: gradients are cleared, kept from the previous step, or the learning rate changes.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev {
    Clear,
    Keep,
    Lr(f32),
}
struct Hyper {
    lr: f32,
    a: f32,
    b: f32,
    eps: f32,
    wd: f32,
    mom: f32,
    init: f32,
    centered: bool,
}
fn zeros(s: &[Arr]) -> Vec<Arr> {
    s.iter().map(|a| Arr::full(&a.shape, c(0.0))).collect()
}
fn e(v: f32) -> E {
    c(v as f64)
}
/// the published recurrences
fn rule(kind: &'static str, h: Hyper) -> Step {
    let mut st: Option<(Vec<Arr>, Vec<Arr>, Vec<Arr>)> = None;
    Box::new(move |t, lr, g, th| {
        let z = zeros(g);
        let (m, v, q) = st.get_or_insert_with(|| (z.clone(), z.clone(), z.clone()));
        for k in 0..g.len() {
            let lr = c(lr);
            let (a, b, eps) = (e(h.a), e(h.b), e(h.eps));
            for i in 0..g[k].d.len() {
                let (mut gr, p) = (g[k].d[i], th[k].d[i]);
                let one = c(1.0);
                th[k].d[i] = match kind {
                    "sgd" => p - lr * gr,
                    "adam" | "adamw" => {
                        let (mi, vi) = (&mut m[k].d[i], &mut v[k].d[i]);
                        *mi = a * *mi + (one - a) * gr;
                        *vi = b * *vi + (one - b) * gr * gr;
                        let (mh, vh) = (*mi / (one - a.powi(t as i32)), *vi / (one - b.powi(t as i32)));
                        let p = if kind == "adamw" { p * (one - lr * e(h.wd)) } else { p };
                        p - lr * mh / (vh.sqrt() + eps)
                    }
                    "rmsprop" => {
                        gr = gr + e(h.wd) * p;
                        v[k].d[i] = a * v[k].d[i] + (one - a) * gr * gr;
                        let mut avg = v[k].d[i];
                        if h.centered {
                            q[k].d[i] = a * q[k].d[i] + (one - a) * gr;
                            avg = avg - q[k].d[i] * q[k].d[i];
                        }
                        let u = gr / (avg.sqrt() + eps);
                        m[k].d[i] = e(h.mom) * m[k].d[i] + u;
                        p - lr * m[k].d[i]
                    }
                    _ => {
                        gr = gr + e(h.wd) * p;
                        if t == 1 {
                            v[k].d[i] = e(h.init);
                        }
                        v[k].d[i] = v[k].d[i] + gr * gr;
                        let lt = lr / (one + c((t - 1) as f64) * e(h.b));
                        p - lt * gr / (v[k].d[i].sqrt() + eps)
                    }
                };
            }
        }
    })
}
trait SetLr: Optimizer {
    fn lr(&mut self, l: f32);
}
macro_rules! lr {
    ($($t:ty),*) => { $(impl SetLr for $t { fn lr(&mut self, l: f32) { self.set_learning_rate(l) } })* };
}
lr!(SGD, Adam, AdamW, RMSprop, Adagrad);

fn history(x: &mut Cx, mut o: Box<dyn SetLr>, mut rule: Step, mut lr: f32, evs: &[Ev]) -> R {
    let shapes: [&[usize]; 2] = [&[2], &[1, 2]];
    let mut ps: Vec<Tensor> = vec![];
    let mut th: Vec<Arr> = vec![];
    for (k, s) in shapes.iter().enumerate() {
        let (t, a) = x.tensor_in(s, if k == 0 { 0.25 } else { -1.0 }, if k == 0 { 1.0 } else { -0.25 });
        t.set_requires_grad(true).s()?;
        ps.push(t);
        th.push(a);
    }
    let refs: Vec<&Tensor> = ps.iter().collect();
    for (n, ev) in evs.iter().enumerate() {
        match ev {
            Ev::Clear => {
                o.zero_grad(&refs).s()?;
            }
            Ev::Keep => {}
            Ev::Lr(l) => {
                o.zero_grad(&refs).s()?;
                lr = *l;
                o.lr(lr);
            }
        }
        // a backward pass replaces the gradients of an earlier one
        let mut acc = zeros(&th);
        let mut loss: Option<Tensor> = None;
        for (k, p) in ps.iter().enumerate() {
            let (g, ga) = x.tensor_in(shapes[k], if k == 0 { 0.5 } else { -2.0 }, if k == 0 { 2.0 } else { -0.5 });
            let l = p.mul(&g).s()?.sum_all().s()?;
            loss = Some(match loss {
                Some(s) => s.add(&l).s()?,
                None => l,
            });
            acc[k] = acc[k].add(&ga);
        }
        loss.unwrap().backward().s()?;
        o.step(&refs).s()?;
        rule(n + 1, lr as f64, &acc, &mut th);
        for k in 0..ps.len() {
            x.eq(&format!("step{}:param{}", n + 1, k), &ps[k], &th[k])?;
            x.check(&format!("step{}:leaf{}", n + 1, k), ps[k].is_requires_grad(), "the parameter no longer requires a gradient");
        }
    }
    Ok(())
}

pub fn optimizers(cs: &mut Cases) {
    use Ev::*;
    let hist: Vec<Vec<Ev>> = if cs.thorough {
        vec![vec![Clear; 5], vec![Clear, Keep, Clear, Lr(0.25)], vec![Keep, Keep, Keep], vec![Lr(0.5), Lr(0.03), Clear, Keep]]
    } else {
        vec![vec![Clear; 3], vec![Clear, Keep, Lr(0.25)]]
    };
    for f in [false, true] {
        for (hi, h) in hist.iter().enumerate() {
            let tag = format!("{}/h{}", if f { "f64" } else { "f32" }, hi);
            let mut add = |name: String, kind: &'static str, mk: Box<dyn Fn() -> Box<dyn SetLr>>, hy: fn() -> Hyper| {
                // constants that are not exact in f32 are compared over one step only
                let n = if name.ends_with("-usual") || name.ends_with("-default") { 1 } else { h.len() };
                let h = h[..n].to_vec();
                cs.add(format!("{}/{}", name, tag), move |x| {
                    x.f64 = f;
                    let y = hy();
                    let lr = y.lr;
                    history(x, mk(), rule(kind, y), lr, &h)
                });
            };
            const B: Hyper = Hyper { lr: 0.125, a: 0.75, b: 0.875, eps: 0.0078125, wd: 0.0, mom: 0.0, init: 0.0, centered: false };
            add("sgd".into(), "sgd", Box::new(|| Box::new(SGD::new(0.125f32))), || B);
            add("adam".into(), "adam", Box::new(|| Box::new(Adam::new(0.125f32, 0.75f32, 0.875f32, 0.0078125f32))), || B);
            add("adam-usual".into(), "adam", Box::new(|| Box::new(Adam::new(0.01f32, 0.9f32, 0.999f32, 1e-8f32))), || Hyper { lr: 0.01, a: 0.9, b: 0.999, eps: 1e-8, ..B });
            add("adamw".into(), "adamw", Box::new(|| Box::new(AdamW::new(0.125f32, 0.75f32, 0.875f32, 0.0078125f32, 0.25f32))), || Hyper { wd: 0.25, ..B });
            add("adamw-usual".into(), "adamw", Box::new(|| Box::new(AdamW::new(0.01f32, 0.9f32, 0.999f32, 1e-8f32, 0.01f32))), || Hyper { lr: 0.01, a: 0.9, b: 0.999, eps: 1e-8, wd: 0.01, ..B });
            macro_rules! rms {
                ($n:expr, $mom:expr, $wd:expr, $cen:expr) => {
                    add(
                        format!("rmsprop-{}", $n),
                        "rmsprop",
                        Box::new(|| Box::new(RMSprop::new(0.125f32, 0.75f32, 0.0078125f32, $mom as f32, $wd as f32, $cen))),
                        || Hyper { mom: $mom, wd: $wd, centered: $cen, ..B },
                    )
                };
            }
            rms!("plain", 0.0, 0.0, false);
            rms!("momentum", 0.5, 0.0, false);
            rms!("decay", 0.0, 0.25, false);
            rms!("centered", 0.0, 0.0, true);
            rms!("all", 0.5, 0.25, true);
            add("rmsprop-default".into(), "rmsprop", Box::new(|| Box::new(RMSprop::default_with_lr(0.01f32))), || Hyper { lr: 0.01, a: 0.99, eps: 1e-8, ..B });
            macro_rules! ada {
                ($n:expr, $dec:expr, $wd:expr, $init:expr) => {
                    add(
                        format!("adagrad-{}", $n),
                        "adagrad",
                        Box::new(|| Box::new(Adagrad::new(0.125f32, $dec as f32, 0.0078125f32, $wd as f32, $init as f32))),
                        || Hyper { b: $dec, wd: $wd, init: $init, ..B },
                    )
                };
            }
            ada!("plain", 0.0, 0.0, 0.0);
            ada!("lrdecay", 0.5, 0.0, 0.0);
            ada!("decay", 0.0, 0.25, 0.0);
            ada!("init", 0.0, 0.0, 0.25);
            ada!("all", 0.5, 0.25, 0.25);
            add("adagrad-default".into(), "adagrad", Box::new(|| Box::new(Adagrad::default_with_lr(0.01f32))), || Hyper { lr: 0.01, b: 0.0, eps: 1e-10, ..B });
        }
    }
}
