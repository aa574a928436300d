//! P02 binary / comparison with broadcasting, P03 unary and scalar functions, P18 their gradients
use super::util::*;
use crate::ir::*;
use hodu_core::error::HoduResult;
use hodu_core::tensor::Tensor;

type TF = fn(&Tensor) -> HoduResult<Tensor>;
type EF = fn(E) -> E;
pub struct U {
    pub name: &'static str,
    pub f: TF,
    pub e: EF,
    pub lo: f64,
    pub hi: f64,
    /// points where the derivative does not exist
    pub kinks: &'static [f64],
    pub grad: bool,
}
impl U {
    /// a box between two kinks
    fn smooth(&self) -> (f64, f64) {
        if self.kinks.is_empty() && self.name != "round" {
            return (self.lo, self.hi);
        }
        (0.55, 0.95)
    }
}
fn hsig(x: E) -> E {
    let y = (x + c(3.0)) / c(6.0);
    c(0.0).max(c(1.0).min(y))
}
fn softplus(x: E) -> E {
    (c(1.0) + x.exp()).ln()
}
pub fn unaries() -> Vec<U> {
    let mut v = vec![];
    macro_rules! u {
        ($n:ident, $lo:expr, $hi:expr, $k:expr, $g:expr, $e:expr) => {
            v.push(U { name: stringify!($n), f: |t| t.$n(), e: $e, lo: $lo, hi: $hi, kinks: $k, grad: $g })
        };
    }
    u!(neg, -2.0, 2.0, &[], true, |x| -x);
    u!(abs, -2.0, 2.0, &[0.0], true, |x| x.abs());
    u!(sign, -2.0, 2.0, &[0.0], true, |x| x.sign());
    u!(softsign, -2.0, 2.0, &[0.0], true, |x| x / (c(1.0) + x.abs()));
    u!(square, -2.0, 2.0, &[], true, |x| x * x);
    u!(sqrt, 0.1, 4.0, &[], true, |x| x.sqrt());
    u!(recip, 0.2, 3.0, &[], true, |x| c(1.0) / x);
    u!(relu, -2.0, 2.0, &[0.0], true, |x| x.relu());
    u!(sigmoid, -2.0, 2.0, &[], true, |x| x.sigmoid());
    u!(hardsigmoid, -5.0, 5.0, &[-3.0, 3.0], true, hsig);
    u!(gelu, -2.0, 2.0, &[], true, |x| c(0.5) * x * (c(1.0) + (c(0.7978845608028654) * (x + c(0.044715) * x * x * x)).tanh()));
    u!(softplus, -2.0, 2.0, &[], true, softplus);
    u!(silu, -2.0, 2.0, &[], true, |x| x * x.sigmoid());
    u!(swish, -2.0, 2.0, &[], true, |x| x * x.sigmoid());
    u!(hardsilu, -5.0, 5.0, &[-3.0, 3.0], true, |x| x * hsig(x));
    u!(hardswish, -5.0, 5.0, &[-3.0, 3.0], true, |x| x * hsig(x));
    u!(mish, -2.0, 2.0, &[], true, |x| x * softplus(x).tanh());
    u!(selu, -2.0, 2.0, &[0.0], true, |x| c(1.0507009873554805)
        * E::sel_lt(c(0.0), x, x, c(1.6732632423543772) * (x.exp() - c(1.0))));
    u!(celu, -2.0, 2.0, &[0.0], true, |x| E::sel_lt(c(0.0), x, x, x.exp() - c(1.0)));
    u!(sin, -2.0, 2.0, &[], true, |x| x.sin());
    u!(cos, -2.0, 2.0, &[], true, |x| x.cos());
    u!(tan, -1.0, 1.0, &[], true, |x| x.sin() / x.cos());
    u!(asin, -0.9, 0.9, &[], true, |x| x.asin());
    u!(acos, -0.9, 0.9, &[], true, |x| x.acos());
    u!(atan, -2.0, 2.0, &[], true, |x| x.atan());
    u!(sinh, -2.0, 2.0, &[], true, |x| x.sinh());
    u!(cosh, -2.0, 2.0, &[], true, |x| x.cosh());
    u!(tanh, -2.0, 2.0, &[], true, |x| x.tanh());
    u!(asinh, -2.0, 2.0, &[], true, |x| x.asinh());
    u!(acosh, 1.1, 3.0, &[], true, |x| x.acosh());
    u!(atanh, -0.9, 0.9, &[], true, |x| x.atanh());
    u!(exp, -2.0, 2.0, &[], true, |x| x.exp());
    u!(exp2, -2.0, 2.0, &[], true, |x| x.exp2());
    u!(exp10, -1.0, 1.0, &[], true, |x| x.exp10());
    u!(ln, 0.1, 4.0, &[], true, |x| x.ln());
    u!(log2, 0.1, 4.0, &[], true, |x| x.log2());
    u!(log10, 0.1, 4.0, &[], true, |x| x.log10());
    u!(ceil, -2.9, 2.9, &[-2.0, -1.0, 0.0, 1.0, 2.0], true, |x| x.ceil());
    u!(floor, -2.9, 2.9, &[-2.0, -1.0, 0.0, 1.0, 2.0], true, |x| x.floor());
    u!(round, -2.9, 2.9, &[-2.5, -1.5, -0.5, 0.5, 1.5, 2.5], true, |x| x.round());
    u!(erf, -2.0, 2.0, &[], true, |x| x.erf());
    macro_rules! sc {
        ($n:ident, $k:expr, $lo:expr, $hi:expr, $kinks:expr, $g:expr, $e:expr) => {
            v.push(U {
                name: concat!(stringify!($n), ":", stringify!($k)),
                f: |t| if t.dtype() == hodu_core::types::DType::F64 { t.$n($k as f64) } else { t.$n($k as f32) },
                e: $e,
                lo: $lo,
                hi: $hi,
                kinks: $kinks,
                grad: $g,
            })
        };
    }
    sc!(add_scalar, 1.5, -2.0, 2.0, &[], true, |x| x + c(1.5));
    sc!(sub_scalar, 1.5, -2.0, 2.0, &[], true, |x| x - c(1.5));
    sc!(mul_scalar, 1.5, -2.0, 2.0, &[], true, |x| x * c(1.5));
    sc!(mul_scalar, 0.0, -2.0, 2.0, &[], true, |x| x * c(0.0));
    sc!(div_scalar, 4.0, -2.0, 2.0, &[], true, |x| x / c(4.0));
    sc!(div_scalar, -0.5, -2.0, 2.0, &[], true, |x| x / c(-0.5));
    sc!(pow_scalar, 2.0, -2.0, 2.0, &[0.0, 1.0], true, |x| x * x);
    sc!(pow_scalar, 3.0, -2.0, 2.0, &[0.0, 1.0], true, |x| x * x * x);
    sc!(pow_scalar, 1.0, -2.0, 2.0, &[0.0, 1.0], true, |x| x);
    sc!(pow_scalar, 0.0, -2.0, 2.0, &[0.0, 1.0], true, |_| c(1.0));
    sc!(pow_scalar, -1.0, 0.2, 2.0, &[1.0], true, |x| c(1.0) / x);
    sc!(pow_scalar, -2.0, 0.2, 2.0, &[1.0], true, |x| c(1.0) / (x * x));
    sc!(pow_scalar, 33.0, -1.2, -0.8, &[-1.0], true, |x| x.powi(33));
    sc!(pow_scalar, -34.0, -1.2, -0.8, &[-1.0], true, |x| c(1.0) / x.powi(34));
    sc!(pow_scalar, 2.5, 0.2, 2.0, &[1.0], true, |x| x.pow(c(2.5)));
    sc!(pow_scalar, 0.5, 0.2, 2.0, &[1.0], true, |x| x.sqrt());
    sc!(rem_scalar, 3.0, -2.0, 2.0, &[], true, |x| x);
    sc!(rem_scalar, 1.5, -1.9, 2.9, &[-1.5, 0.0, 1.5], true, |x| E::sel_lt(x, c(1.5), E::sel_le(x, c(-1.5), x + c(1.5), x), x - c(1.5)));
    sc!(maximum_scalar, 0.5, -2.0, 2.0, &[0.5], true, |x| x.max(c(0.5)));
    sc!(minimum_scalar, 0.5, -2.0, 2.0, &[0.5], true, |x| x.min(c(0.5)));
    sc!(leaky_relu, 0.25, -2.0, 2.0, &[0.0], true, |x| E::sel_lt(c(0.0), x, x, c(0.25) * x));
    sc!(prelu, 0.25, -2.0, 2.0, &[0.0], true, |x| E::sel_lt(c(0.0), x, x, c(0.25) * x));
    sc!(elu, 0.5, -2.0, 2.0, &[0.0], true, |x| E::sel_lt(c(0.0), x, x, c(0.5) * (x.exp() - c(1.0))));
    v
}
fn kinks(x: &mut Cx, a: &Arr, k: &[f64]) {
    for e in &a.d {
        for &k in k {
            x.differs(*e, k);
        }
    }
}
pub fn unary(cs: &mut Cases) {
    for dt64 in [false, true] {
        for u in unaries() {
            let u = std::rc::Rc::new(u);
            let dn = if dt64 { "f64" } else { "f32" };
            for l in LAYS {
                let u = u.clone();
                cs.add(format!("{}/{}/{:?}", u.name, dn, l), move |x| {
                    x.f64 = dt64;
                    for s in [vec![2, 2], vec![2, 1, 2]] {
                        // the second shape stays on one side of the kinks, so that branches do not multiply
                        let (lo, hi) = if s.len() == 2 { (u.lo, u.hi) } else { u.smooth() };
                        let (t, a) = laid(x, &s, l, lo, hi)?;
                        let r = (u.f)(&t).s()?;
                        x.eq(&format!("{:?}", s).replace(' ', ""), &r, &a.map(u.e))?;
                    }
                    Ok(())
                });
            }
            let u = u.clone();
            cs.add(format!("{}/{}/sizes", u.name, dn), move |x| {
                x.f64 = dt64;
                let (lo, hi) = u.smooth();
                for n in [1usize, 5, 8, 17, 35] {
                    let (t, a) = x.tensor_in(&[n], lo, hi);
                    x.eq(&format!("n{}", n), &(u.f)(&t).s()?, &a.map(u.e))?;
                }
                let (t, a) = x.tensor_in(&[], u.lo, u.hi);
                x.eq("scalar", &(u.f)(&t).s()?, &a.map(u.e))
            });
        }
    }
}
pub fn unary_grad(cs: &mut Cases) {
    for dt64 in [false, true] {
        for u in unaries() {
            let u = std::rc::Rc::new(u);
            let dn = if dt64 { "f64" } else { "f32" };
            for l in LAYS {
                if dt64 && l != Lay::Plain {
                    continue;
                }
                let u = u.clone();
                cs.add(format!("{}/{}/{:?}", u.name, dn, l), move |x| {
                    x.f64 = dt64;
                    let i = input(x, &[2, 2], l, u.lo, u.hi, true)?;
                    kinks(x, &i.la, u.kinks);
                    let r = (u.f)(&i.t).s()?;
                    let want = i.a.map(u.e);
                    if u.name == "sign" || u.name == "ceil" || u.name == "floor" || u.name == "round" {
                        // documented as not differentiable: no gradient flows
                        x.check("no-backprop", !r.is_requires_grad(), "requires_grad propagated");
                        return x.eq("value", &r, &want);
                    }
                    grads(x, "g", &[&i], &r, &want)
                });
            }
        }
    }
}

type TF2 = fn(&Tensor, &Tensor) -> HoduResult<Tensor>;
type EF2 = fn(E, E) -> E;
pub fn binaries() -> Vec<(&'static str, TF2, EF2, f64, f64)> {
    vec![
        ("add", |a, b| a.add(b), |a, b| a + b, -2.0, 2.0),
        ("sub", |a, b| a.sub(b), |a, b| a - b, -2.0, 2.0),
        ("mul", |a, b| a.mul(b), |a, b| a * b, -2.0, 2.0),
        ("div", |a, b| a.div(b), |a, b| a / b, 0.3, 2.0),
        ("maximum", |a, b| a.maximum(b), |a, b| a.max(b), -2.0, 2.0),
        ("minimum", |a, b| a.minimum(b), |a, b| a.min(b), -2.0, 2.0),
        ("pow", |a, b| a.pow(b), |a, b| a.pow(b), 0.3, 0.9),
        ("rem", |a, b| a.rem(b), |a, b| a.rem(b), 0.3, 0.9),
    ]
}
fn bpairs() -> Vec<(Vec<usize>, Vec<usize>)> {
    vec![
        (vec![2, 3], vec![2, 3]),
        (vec![2, 3], vec![3]),
        (vec![3], vec![2, 3]),
        (vec![2, 1], vec![1, 3]),
        (vec![2, 1, 3], vec![4, 1]),
        (vec![], vec![2, 2]),
        (vec![2, 2], vec![1]),
        (vec![1, 1, 1], vec![2]),
        (vec![3, 1], vec![3, 1]),
        (vec![17], vec![17]),
        (vec![9], vec![1]),
    ]
}
pub fn binary(cs: &mut Cases) {
    for dt64 in [false, true] {
        let dn = if dt64 { "f64" } else { "f32" };
        for (n, f, e, lo, hi) in binaries() {
            for (s1, s2) in bpairs() {
                cs.add(format!("{}/{}/{:?}{:?}", n, dn, s1, s2), move |x| {
                    x.f64 = dt64;
                    for l1 in LAYS {
                        for l2 in LAYS {
                            if (l1 != Lay::Plain && l2 != Lay::Plain && l1 != l2) || (s1.len() < 2 && l1 == Lay::T) || (s2.len() < 2 && l2 == Lay::T) {
                                continue;
                            }
                            let (t1, a1) = laid(x, &s1, l1, lo, hi)?;
                            let (t2, a2) = laid(x, &s2, l2, lo, hi)?;
                            x.eq(&format!("{:?}{:?}", l1, l2), &f(&t1, &t2).s()?, &a1.zip(&a2, e))?;
                        }
                    }
                    Ok(())
                });
            }
        }
        macro_rules! cmp {
            ($n:ident, $s:ident, $e:expr) => {
                for (l1, l2) in [(Lay::Plain, Lay::Plain), (Lay::T, Lay::Plain), (Lay::Plain, Lay::Step), (Lay::Off, Lay::Off), (Lay::Bc, Lay::Plain)] {
                    cs.add(format!("{}/{}/{:?}{:?}", stringify!($n), dn, l1, l2), move |x| {
                        x.f64 = dt64;
                        let (t1, a1) = laid(x, &[1, 2], l1, -2.0, 2.0)?;
                        let (t2, a2) = laid(x, &[2, 2], l2, -2.0, 2.0)?;
                        let f: fn(E, E) -> B = $e;
                        let w: Vec<B> = indices(&[2, 2]).iter().map(|i| f(a1.bat(i), a2.bat(i))).collect();
                        x.eq_b("cmp", &t1.$n(&t2).s()?, &[2, 2], &w)
                    });
                    cs.add(format!("{}/{}/{:?}", stringify!($s), dn, l1), move |x| {
                        x.f64 = dt64;
                        let (t1, a1) = laid(x, &[2, 2], l1, -2.0, 2.0)?;
                        let f: fn(E, E) -> B = $e;
                        let w: Vec<B> = a1.d.iter().map(|&i| f(i, c(0.5))).collect();
                        x.eq_b("cmp", &if dt64 { t1.$s(0.5f64) } else { t1.$s(0.5f32) }.s()?, &[2, 2], &w)
                    });
                }
            };
        }
        cmp!(eq, eq_scalar, |a, b| a.eq(b));
        cmp!(ne, ne_scalar, |a, b| a.eq(b).not());
        cmp!(lt, lt_scalar, |a, b| a.lt(b));
        cmp!(le, le_scalar, |a, b| a.le(b));
        cmp!(gt, gt_scalar, |a, b| a.gt(b));
        cmp!(ge, ge_scalar, |a, b| a.ge(b));
        macro_rules! logical {
            ($n:ident, $e:expr) => {
                for (l1, l2) in [(Lay::Plain, Lay::Plain), (Lay::T, Lay::Plain), (Lay::Bc, Lay::Step)] {
                    cs.add(format!("{}/{}/{:?}{:?}", stringify!($n), dn, l1, l2), move |x| {
                        x.f64 = dt64;
                        let (t1, a1) = laid(x, &[2, 2], l1, -2.0, 2.0)?;
                        let (t2, a2) = laid(x, &[1, 2], l2, -2.0, 2.0)?;
                        let f: fn(B, B) -> B = $e;
                        let nz = |e: E| e.eq(c(0.0)).not();
                        let w: Vec<B> = indices(&[2, 2]).iter().map(|i| f(nz(a1.bat(i)), nz(a2.bat(i)))).collect();
                        x.eq_b("logical", &t1.$n(&t2).s()?, &[2, 2], &w)
                    });
                }
            };
        }
        logical!(logical_and, |a, b| a.and(b));
        logical!(logical_or, |a, b| a.or(b));
        logical!(logical_xor, |a, b| a.and(b.not()).or(b.and(a.not())));
        for l in LAYS {
            cs.add(format!("logical_not/{}/{:?}", dn, l), move |x| {
                x.f64 = dt64;
                let (t1, a1) = laid(x, &[2, 2], l, -2.0, 2.0)?;
                let w: Vec<B> = a1.d.iter().map(|e| e.eq(c(0.0))).collect();
                x.eq_b("logical", &t1.logical_not().s()?, &[2, 2], &w)
            });
        }
    }
    // selection
    for l in LAYS {
        cs.add(format!("where3/{:?}", l), move |x| {
            let (t1, a1) = laid(x, &[2, 2], l, -2.0, 2.0)?;
            let (t2, a2) = laid(x, &[2], Lay::Step, -2.0, 2.0)?;
            let (t3, a3) = laid(x, &[2, 1], Lay::Plain, -2.0, 2.0)?;
            let cond = t3.gt_scalar(0.0f32).s()?;
            let want = Arr::gen(&[2, 2], |i| E::sel_lt(c(0.0), a3.bat(i), a1.bat(i), a2.bat(i)));
            x.eq("where3", &t1.where3(&cond, &t2).s()?, &want)?;
            x.eq("masked_fill", &t1.masked_fill(&cond, 7.0f32).s()?, &Arr::gen(&[2, 2], |i| E::sel_lt(c(0.0), a3.bat(i), c(7.0), a1.bat(i))))
        });
        cs.add(format!("masked_fill_inf/{:?}", l), move |x| {
            let (t1, a1) = laid(x, &[2, 2], l, -2.0, 2.0)?;
            let mask = Tensor::new(vec![vec![true, false], vec![false, true]]).s()?;
            let m = t1.masked_fill(&mask, f32::NEG_INFINITY).s()?;
            let g = m.to_flatten_vec::<f32>().s()?;
            x.check("inf", g[0] == f32::NEG_INFINITY && g[3] == f32::NEG_INFINITY, format!("masked elements {} {}", g[0], g[3]));
            x.eq_e("kept", &[E(g[1] as f64), E(g[2] as f64)], &[a1.d[1], a1.d[2]]);
            Ok(())
        });
        cs.add(format!("clamp/{:?}", l), move |x| {
            let (t1, a1) = laid(x, &[2, 1], l, -2.0, 2.0)?;
            let cl = |e: E| E::sel_lt(e, c(-0.5), c(-0.5), E::sel_lt(c(1.0), e, c(1.0), e));
            x.eq("clamp", &t1.clamp(-0.5f32, 1.0f32).s()?, &a1.map(cl))
        });
        cs.add(format!("clamp_min/{:?}", l), move |x| {
            let (t1, a1) = laid(x, &[2, 1], l, -2.0, 2.0)?;
            x.eq("clamp_min", &t1.clamp_min(-0.5f32).s()?, &a1.map(|e| e.max(c(-0.5))))?;
            x.eq("clamp_max", &t1.clamp_max(0.5f32).s()?, &a1.map(|e| e.min(c(0.5))))
        });
    }
}
pub fn binary_grad(cs: &mut Cases) {
    for dt64 in [false, true] {
        let dn = if dt64 { "f64" } else { "f32" };
        for (n, f, e, lo, hi) in binaries() {
            let (l2, h2) = if n == "rem" { (1.0, 2.0) } else { (lo, hi) };
            for (s1, s2) in bpairs() {
                if s1.iter().product::<usize>() > 8 || s2.iter().product::<usize>() > 8 {
                    continue;
                }
                if n.ends_with("imum") && s1.len() == 3 && s2.len() == 2 {
                    continue;
                }
                for l in LAYS {
                    if dt64 && l != Lay::Plain {
                        continue;
                    }
                    let (s1, s2) = (s1.clone(), s2.clone());
                    cs.add(format!("{}/{}/{:?}{:?}/{:?}", n, dn, s1, s2, l), move |x| {
                        x.f64 = dt64;
                        let i1 = input(x, &s1, l, lo, hi, true)?;
                        let i2 = input(x, &s2, if l == Lay::Step { Lay::T } else { Lay::Plain }, l2, h2, true)?;
                        let want = i1.a.zip(&i2.a, e);
                        if n == "maximum" || n == "minimum" {
                            for i in indices(&want.shape) {
                                let q = i1.a.bat(&i).eq(i2.a.bat(&i)).not();
                                x.assume(q);
                            }
                        }
                        grads(x, "g", &[&i1, &i2], &f(&i1.t, &i2.t).s()?, &want)
                    });
                }
            }
        }
    }
    for l in LAYS {
        for (sa, sb) in [(1.0, 1.0), (-1.0, 1.0), (1.0, -1.0), (-1.0, -1.0)] {
            cs.add(format!("rem/{:?}/{}{}", l, sa, sb), move |x| {
                let r = |a: f64, b: f64, s: f64| if s > 0.0 { (a, b) } else { (-b, -a) };
                let ((a0, a1), (b0, b1)) = (r(1.1, 1.6, sa), r(0.85, 1.05, sb));
                let i1 = input(x, &[2, 2], l, a0, a1, true)?;
                let i2 = input(x, &[2], Lay::Plain, b0, b1, true)?;
                let want = i1.a.zip(&i2.a, |a, b| a - c(sa * sb) * b);
                grads(x, "g", &[&i1, &i2], &i1.t.rem(&i2.t).s()?, &want)
            });
        }
        cs.add(format!("pow/{:?}", l), move |x| {
            let i1 = input(x, &[2, 2], l, 0.3, 0.9, true)?;
            let i2 = input(x, &[2], Lay::Plain, 1.1, 1.9, true)?;
            let want = i1.a.zip(&i2.a, |a, b| a.pow(b));
            grads(x, "g", &[&i1, &i2], &i1.t.pow(&i2.t).s()?, &want)
        });
        cs.add(format!("where3/{:?}", l), move |x| {
            let i1 = input(x, &[2, 2], l, -2.0, 2.0, true)?;
            let i2 = input(x, &[2], Lay::Plain, -2.0, 2.0, true)?;
            let (t3, a3) = x.tensor(&[2, 1]);
            kinks(x, &a3, &[0.0]);
            let cond = t3.gt_scalar(0.0f32).s()?;
            let want = Arr::gen(&[2, 2], |i| E::sel_lt(c(0.0), a3.bat(i), i1.a.bat(i), i2.a.bat(i)));
            grads(x, "g", &[&i1, &i2], &i1.t.where3(&cond, &i2.t).s()?, &want)
        });
        cs.add(format!("clamp/{:?}", l), move |x| {
            let i1 = input(x, &[2, 1], l, -2.0, 2.0, true)?;
            kinks(x, &i1.la, &[-0.5, 1.0]);
            let cl = |e: E| E::sel_lt(e, c(-0.5), c(-0.5), E::sel_lt(c(1.0), e, c(1.0), e));
            let want = i1.a.map(cl);
            grads(x, "g", &[&i1], &i1.t.clamp(-0.5f32, 1.0f32).s()?, &want)
        });
    }
}
