//! P05 matmul and dot, P06 convolutions; P20 their gradients
use super::util::*;
use crate::ir::*;
use hodu_core::tensor::Tensor;

/// batched matrix product of operands of at least two dimensions
pub fn bmm(a: &Arr, b: &Arr) -> Arr {
    let (na, nb) = (a.shape.len(), b.shape.len());
    let (m, k, n) = (a.shape[na - 2], a.shape[na - 1], b.shape[nb - 1]);
    let bs = bshape(&a.shape[..na - 2], &b.shape[..nb - 2]);
    let mut s = bs.clone();
    s.extend([m, n]);
    Arr::gen(&s, |ix| {
        let (bi, i, j) = (&ix[..bs.len()], ix[bs.len()], ix[bs.len() + 1]);
        (0..k)
            .map(|q| {
                let mut p = bi.to_vec();
                p.extend([i, q]);
                let mut r = bi.to_vec();
                r.extend([q, j]);
                a.bat_tail(&p, 2) * b.bat_tail(&r, 2)
            })
            .sum()
    })
}
/// matmul under the usual promotion of vectors
pub fn mm(a: &Arr, b: &Arr) -> Arr {
    match (a.shape.len(), b.shape.len()) {
        (1, 1) => Arr::new(&[], vec![a.mul(b).sum_all()]),
        (_, 1) => {
            let r = bmm(a, &b.reshape(&[b.shape[0], 1]));
            let s = r.shape[..r.shape.len() - 1].to_vec();
            r.reshape(&s)
        }
        (1, _) => {
            let r = bmm(&a.reshape(&[1, a.shape[0]]), b);
            let mut s = r.shape.clone();
            s.remove(s.len() - 2);
            r.reshape(&s)
        }
        _ => bmm(a, b),
    }
}
fn pairs() -> Vec<(Vec<usize>, Vec<usize>)> {
    let mut v = vec![];
    for (m, k, n) in [(2, 3, 2), (1, 2, 3), (3, 1, 2), (2, 2, 1), (1, 1, 1), (3, 2, 3)] {
        v.push((vec![m, k], vec![k, n]));
    }
    for (a, b) in [
        (vec![3], vec![3]),
        (vec![2, 3], vec![3]),
        (vec![3], vec![3, 2]),
        (vec![1, 3], vec![3]),
        (vec![2, 2, 3], vec![2, 3, 2]),
        (vec![1, 2, 3], vec![2, 3, 2]),
        (vec![2, 2, 3], vec![1, 3, 2]),
        (vec![2, 3], vec![2, 3, 2]),
        (vec![2, 2, 3], vec![3, 2]),
        (vec![2, 1, 2, 2], vec![1, 3, 2, 1]),
        (vec![2, 1, 2, 2], vec![3, 2, 1]),
        (vec![3, 2, 2], vec![2, 1, 2, 2]),
        (vec![2, 2, 1, 2], vec![2, 2, 2, 1]),
        (vec![1, 1, 1, 2, 2], vec![2, 2]),
    ] {
        v.push((a, b));
    }
    v
}
pub fn matmul(cs: &mut Cases) {
    for f in [false, true] {
        for (sa, sb) in pairs() {
            for la in LAYS {
                for lb in LAYS {
                    if f && !(la == lb || la == Lay::Plain || lb == Lay::Plain) {
                        continue;
                    }
                    let (sa, sb) = (sa.clone(), sb.clone());
                    cs.add(format!("{}/{:?}{:?}/{:?}{:?}", if f { "f64" } else { "f32" }, sa, sb, la, lb), move |x| {
                        x.f64 = f;
                        let (a, aa) = laid(x, &sa, la, -2.0, 2.0)?;
                        let (b, bb) = laid(x, &sb, lb, -2.0, 2.0)?;
                        let w = mm(&aa, &bb);
                        x.eq("matmul", &a.matmul(&b).s()?, &w)?;
                        if sa.len() <= 2 && sb.len() <= 2 {
                            x.eq("dot", &a.dot(&b).s()?, &w)?;
                        }
                        Ok(())
                    });
                }
            }
        }
        // batch axes that are transposed or sliced
        cs.add(format!("batchview/{}", f), move |x| {
            x.f64 = f;
            let (a, aa) = x.tensor_in(&[2, 3, 2, 2], -2.0, 2.0);
            let (b, bb) = x.tensor_in(&[3, 2, 2, 2], -2.0, 2.0);
            let t = a.permute(&[1, 0, 2, 3]).s()?;
            let ta = aa.permute(&[1, 0, 2, 3]);
            x.eq("p", &t.matmul(&b).s()?, &mm(&ta, &bb))?;
            let t2 = a.permute(&[2, 3, 0, 1]).s()?;
            let (d, dd) = x.tensor_in(&[2, 2, 3, 2], -2.0, 2.0);
            x.eq("q", &t2.matmul(&d).s()?, &mm(&aa.permute(&[2, 3, 0, 1]), &dd))?;
            let s = b.slice(0, 1, None, 1).s()?.slice(1, 1, Some(2), 1).s()?;
            let ss = reference(&reference(&bb, &V::Slice(0, 1, None, 1)), &V::Slice(1, 1, Some(2), 1));
            let (e, ee) = x.tensor_in(&[2, 2, 2], -2.0, 2.0);
            x.eq("s", &s.matmul(&e).s()?, &mm(&ss, &ee))?;
            let u = b.slice(0, 0, None, 2).s()?.transpose(2, 3).s()?;
            let uu = reference(&bb, &V::Slice(0, 0, None, 2)).t();
            x.eq("u", &e.matmul(&u).s()?, &mm(&ee, &uu))
        });
    }
    // more than one block of rows for the threads
    for (m, k, n) in [(300usize, 1usize, 1usize), (260, 2, 1)] {
        cs.add(format!("tall/{}", m), move |x| {
            let (a, aa) = x.tensor_in(&[m, k], -2.0, 2.0);
            let (b, bb) = x.tensor_in(&[k, n], -2.0, 2.0);
            x.eq("dot", &a.dot(&b).s()?, &mm(&aa, &bb))?;
            x.eq("matmul", &a.matmul(&b).s()?, &mm(&aa, &bb))
        });
    }
}
pub fn matmul_grad(cs: &mut Cases) {
    for (sa, sb) in pairs() {
        for (la, lb) in [
            (Lay::Plain, Lay::Plain),
            (Lay::T, Lay::Plain),
            (Lay::Plain, Lay::T),
            (Lay::T, Lay::T),
            (Lay::Step, Lay::Off),
            (Lay::Bc, Lay::Step),
            (Lay::Off, Lay::Bc),
        ] {
            for f in [false, true] {
                if f && la != Lay::Plain {
                    continue;
                }
                let (sa, sb) = (sa.clone(), sb.clone());
                cs.add(format!("matmul/{:?}{:?}/{:?}{:?}{}", sa, sb, la, lb, f), move |x| {
                    x.f64 = f;
                    let a = input(x, &sa, la, -2.0, 2.0, true)?;
                    let b = input(x, &sb, lb, -2.0, 2.0, true)?;
                    grads(x, "matmul", &[&a, &b], &a.t.matmul(&b.t).s()?, &mm(&a.a, &b.a))?;
                    if sa.len() <= 2 && sb.len() <= 2 {
                        let a = input(x, &sa, la, -2.0, 2.0, true)?;
                        let b = input(x, &sb, lb, -2.0, 2.0, true)?;
                        grads(x, "dot", &[&a, &b], &a.t.dot(&b.t).s()?, &mm(&a.a, &b.a))?;
                    }
                    Ok(())
                });
            }
        }
    }
    cs.add("matmul/same", |x| {
        let a = input(x, &[2, 2], Lay::Plain, -2.0, 2.0, true)?;
        grads(x, "square", &[&a], &a.t.matmul(&a.t).s()?, &mm(&a.a, &a.a))?;
        let a = input(x, &[2, 3], Lay::Plain, -2.0, 2.0, true)?;
        grads(x, "gram", &[&a], &a.t.matmul(&a.t.t().s()?).s()?, &mm(&a.a, &a.a.t()))
    });
}

// ---- convolutions ----
#[derive(Clone, Copy, Debug)]
pub struct CP {
    pub s: usize,
    pub p: usize,
    pub d: usize,
    pub op: usize,
}
fn pos(o: usize, k: usize, c: CP, n: usize) -> Option<usize> {
    let v = (o * c.s + k * c.d) as i64 - c.p as i64;
    (v >= 0 && (v as usize) < n).then_some(v as usize)
}
fn poss(o: &[usize], k: &[usize], c: CP, n: &[usize]) -> Option<Vec<usize>> {
    (0..n.len()).map(|a| pos(o[a], k[a], c, n[a])).collect()
}
fn idx(a: usize, b: usize, r: &[usize]) -> Vec<usize> {
    let mut v = vec![a, b];
    v.extend_from_slice(r);
    v
}
pub fn conv_out(n: &[usize], k: &[usize], c: CP) -> Option<Vec<usize>> {
    n.iter().zip(k).map(|(n, k)| (n + 2 * c.p).checked_sub(c.d * (k - 1) + 1).map(|v| v / c.s + 1)).collect()
}
pub fn convt_out(n: &[usize], k: &[usize], c: CP) -> Option<Vec<usize>> {
    n.iter().zip(k).map(|(n, k)| ((n - 1) * c.s + c.d * (k - 1) + c.op + 1).checked_sub(2 * c.p).filter(|v| *v > 0)).collect()
}
/// x [N, Ci, ..], w [Co, Ci, ..]
pub fn conv(x: &Arr, w: &Arr, c_: CP) -> Arr {
    let (n, k) = (&x.shape[2..], &w.shape[2..]);
    let o = conv_out(n, k, c_).unwrap();
    Arr::gen(&idx(x.shape[0], w.shape[0], &o), |ix| {
        let mut s = c(0.0);
        for ci in 0..x.shape[1] {
            for kk in indices(k) {
                if let Some(p) = poss(&ix[2..], &kk, c_, n) {
                    s = s + x.at(&idx(ix[0], ci, &p)) * w.at(&idx(ix[1], ci, &kk));
                }
            }
        }
        s
    })
}
/// x [N, Ci, ..], w [Ci, Co, ..]
pub fn convt(x: &Arr, w: &Arr, c_: CP) -> Arr {
    let (n, k) = (&x.shape[2..], &w.shape[2..]);
    let o = convt_out(n, k, c_).unwrap();
    let mut r = Arr::full(&idx(x.shape[0], w.shape[1], &o), c(0.0));
    for b in 0..x.shape[0] {
        for co in 0..w.shape[1] {
            for ci in 0..x.shape[1] {
                for i in indices(n) {
                    for kk in indices(k) {
                        if let Some(p) = poss(&i, &kk, c_, &o) {
                            let q = idx(b, co, &p);
                            let v = r.at(&q) + x.at(&idx(b, ci, &i)) * w.at(&idx(ci, co, &kk));
                            r.set(&q, v);
                        }
                    }
                }
            }
        }
    }
    r
}
/// x [N, Ci, ..], g [N, Co, ..] -> [Co, Ci, k]
pub fn conv_gw(x: &Arr, g: &Arr, k: &[usize], c_: CP) -> Arr {
    let n = &x.shape[2..];
    Arr::gen(&idx(g.shape[1], x.shape[1], k), |ix| {
        let mut s = c(0.0);
        for b in 0..x.shape[0] {
            for o in indices(&g.shape[2..]) {
                if let Some(p) = poss(&o, &ix[2..], c_, n) {
                    s = s + g.at(&idx(b, ix[0], &o)) * x.at(&idx(b, ix[1], &p));
                }
            }
        }
        s
    })
}
/// x [N, Ci, ..], g [N, Co, ..] -> [Ci, Co, k]
pub fn convt_gw(x: &Arr, g: &Arr, k: &[usize], c_: CP) -> Arr {
    let n = &g.shape[2..];
    Arr::gen(&idx(x.shape[1], g.shape[1], k), |ix| {
        let mut s = c(0.0);
        for b in 0..x.shape[0] {
            for i in indices(&x.shape[2..]) {
                if let Some(p) = poss(&i, &ix[2..], c_, n) {
                    s = s + x.at(&idx(b, ix[0], &i)) * g.at(&idx(b, ix[1], &p));
                }
            }
        }
        s
    })
}
fn t_conv(d: usize, x: &Tensor, w: &Tensor, c: CP) -> Result<Tensor, String> {
    match d {
        1 => x.conv1d(w, c.s, c.p, c.d),
        2 => x.conv2d(w, c.s, c.p, c.d),
        _ => x.conv3d(w, c.s, c.p, c.d),
    }
    .s()
}
fn t_convt(d: usize, x: &Tensor, w: &Tensor, c: CP) -> Result<Tensor, String> {
    match d {
        1 => x.conv_transpose1d(w, c.s, c.p, c.op, c.d),
        2 => x.conv_transpose2d(w, c.s, c.p, c.op, c.d),
        _ => x.conv_transpose3d(w, c.s, c.p, c.op, c.d),
    }
    .s()
}
fn t_gw(d: usize, x: &Tensor, g: &Tensor, s: &[usize], c: CP) -> Result<Tensor, String> {
    match d {
        1 => x.conv1d_grad_weight(g, s, c.s, c.p, c.d),
        2 => x.conv2d_grad_weight(g, s, c.s, c.p, c.d),
        _ => x.conv3d_grad_weight(g, s, c.s, c.p, c.d),
    }
    .s()
}
fn t_tgw(d: usize, x: &Tensor, g: &Tensor, s: &[usize], c: CP) -> Result<Tensor, String> {
    match d {
        1 => x.conv_transpose1d_grad_weight(g, s, c.s, c.p, c.d),
        2 => x.conv_transpose2d_grad_weight(g, s, c.s, c.p, c.d),
        _ => x.conv_transpose3d_grad_weight(g, s, c.s, c.p, c.d),
    }
    .s()
}
struct Geo {
    d: usize,
    n: Vec<usize>,
    k: Vec<usize>,
    b: usize,
    ci: usize,
    co: usize,
    c: CP,
}
fn geos(transposed: bool, thorough: bool) -> Vec<Geo> {
    let mut v = vec![];
    for (d, n, k) in [
        (1, vec![5], vec![3]),
        (1, vec![4], vec![2]),
        (1, vec![3], vec![1]),
        (2, vec![4, 3], vec![2, 3]),
        (2, vec![3, 4], vec![3, 1]),
        (2, vec![2, 3], vec![1, 2]),
        (3, vec![2, 3, 2], vec![1, 2, 2]),
        (3, vec![3, 2, 2], vec![2, 1, 2]),
    ] {
        for s in 1..=3 {
            for p in 0..=2 {
                for dl in 1..=2 {
                    for op in 0..=(if transposed { 1 } else { 0 }) {
                        let c = CP { s, p, d: dl, op };
                        let o = if transposed { convt_out(&n, &k, c) } else { conv_out(&n, &k, c) };
                        // an output padding is smaller than the stride or the dilation
                        if o.is_none() || o.as_ref().unwrap().contains(&0) || op > 0 && op >= s.max(dl) {
                            continue;
                        }
                        if o.unwrap().iter().product::<usize>() * k.iter().product::<usize>() > 400 {
                            continue;
                        }
                        for (b, ci, co) in [(1, 1, 1), (1, 2, 2), (2, 2, 1), (1, 1, 3)] {
                            let odd = (s + p + dl + b + ci + co) % 2 == 0;
                            if !thorough && d == 3 && (odd || s == 3) || !thorough && d == 2 && odd && b * ci * co != 4 {
                                continue;
                            }
                            v.push(Geo { d, n: n.clone(), k: k.clone(), b, ci, co, c });
                        }
                    }
                }
            }
        }
    }
    v
}
pub fn convs(cs: &mut Cases) {
    let th = cs.thorough;
    for tr in [false, true] {
        for (gi, g) in geos(tr, th).into_iter().enumerate() {
            let g = std::rc::Rc::new(g);
            // one non-plain layout pair per geometry, in turn
            let ls: Vec<(Lay, Lay, bool)> =
                vec![(Lay::Plain, Lay::Plain, false), (LAYS[gi % 5], LAYS[(gi / 5) % 5], gi % 2 == 0), (LAYS[(gi + 2) % 5], LAYS[(gi / 3 + 1) % 5], gi % 3 == 0)];
            for (k, (lx, lw, f)) in ls.into_iter().enumerate() {
                let g = g.clone();
                let name = if tr { "convt" } else { "conv" };
                cs.add(
                    format!("{}{}d/n{:?}k{:?}b{}ci{}co{}s{}p{}d{}o{}/{}{:?}{:?}{}", name, g.d, g.n, g.k, g.b, g.ci, g.co, g.c.s, g.c.p, g.c.d, g.c.op, k, lx, lw, f),
                    move |x| {
                        x.f64 = f;
                        let (t, a) = laid(x, &idx(g.b, g.ci, &g.n), lx, -2.0, 2.0)?;
                        let ws = if tr { idx(g.ci, g.co, &g.k) } else { idx(g.co, g.ci, &g.k) };
                        let (w, wa) = laid(x, &ws, lw, -2.0, 2.0)?;
                        if tr {
                            let y = convt(&a, &wa, g.c);
                            x.eq("value", &t_convt(g.d, &t, &w, g.c)?, &y)?;
                            let (go, ga) = laid(x, &y.shape, lw, -2.0, 2.0)?;
                            x.eq("grad_weight", &t_tgw(g.d, &t, &go, &ws, g.c)?, &convt_gw(&a, &ga, &g.k, g.c))
                        } else {
                            let y = conv(&a, &wa, g.c);
                            x.eq("value", &t_conv(g.d, &t, &w, g.c)?, &y)?;
                            let (go, ga) = laid(x, &y.shape, lw, -2.0, 2.0)?;
                            x.eq("grad_weight", &t_gw(g.d, &t, &go, &ws, g.c)?, &conv_gw(&a, &ga, &g.k, g.c))
                        }
                    },
                );
            }
        }
    }
}
pub fn conv_grad(cs: &mut Cases) {
    let th = cs.thorough;
    for tr in [false, true] {
        for (gi, g) in geos(tr, th).into_iter().enumerate() {
            if !th && gi % 2 == 1 && g.ci == g.co {
                continue;
            }
            let g = std::rc::Rc::new(g);
            let ls = vec![(Lay::Plain, Lay::Plain), (LAYS[gi % 5], LAYS[(gi / 5) % 5])];
            for (k, (lx, lw)) in ls.into_iter().enumerate() {
                if !th && k == 1 && gi % 2 == 0 {
                    continue;
                }
                let g = g.clone();
                let name = if tr { "convt" } else { "conv" };
                cs.add(
                    format!("{}{}d/n{:?}k{:?}b{}ci{}co{}s{}p{}d{}o{}/{}{:?}{:?}", name, g.d, g.n, g.k, g.b, g.ci, g.co, g.c.s, g.c.p, g.c.d, g.c.op, k, lx, lw),
                    move |x| {
                        x.f64 = gi % 3 == 0;
                        let i = input(x, &idx(g.b, g.ci, &g.n), lx, -2.0, 2.0, true)?;
                        let w = input(x, &if tr { idx(g.ci, g.co, &g.k) } else { idx(g.co, g.ci, &g.k) }, lw, -2.0, 2.0, true)?;
                        if tr {
                            grads(x, "g", &[&i, &w], &t_convt(g.d, &i.t, &w.t, g.c)?, &convt(&i.a, &w.a, g.c))
                        } else {
                            grads(x, "g", &[&i, &w], &t_conv(g.d, &i.t, &w.t, g.c)?, &conv(&i.a, &w.a, g.c))
                        }
                    },
                );
            }
        }
    }
}
