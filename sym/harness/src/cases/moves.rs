//! P07 windows, P08 joining, splitting, flipping, scanning, padding, P09 resizing (grad: the same under P19)
use super::reduce::mean;
use super::util::*;
use crate::ir::*;
use hodu_core::tensor::Tensor;

// ---- windows ----
struct Win {
    n: Vec<usize>,
    w: Vec<usize>,
    s: Vec<usize>,
    p: Vec<(usize, usize)>,
}
fn wins(thorough: bool) -> Vec<Win> {
    let mut v = vec![];
    for n in 1..=6 {
        for w in 1..=3 {
            for s in 1..=3 {
                for p in [(0, 0), (1, 0), (0, 2), (1, 1), (2, 1)] {
                    if n + p.0 + p.1 < w || p.0 >= w || p.1 >= w {
                        continue;
                    }
                    if !thorough && n > 4 && (n + w + s + p.0) % 2 == 0 {
                        continue;
                    }
                    v.push(Win { n: vec![n], w: vec![w], s: vec![s], p: vec![p] });
                }
            }
        }
    }
    let mut add = |n: &[usize], w: &[usize], s: &[usize], p: &[(usize, usize)]| v.push(Win { n: n.to_vec(), w: w.to_vec(), s: s.to_vec(), p: p.to_vec() });
    add(&[3, 4], &[2, 2], &[1, 1], &[(0, 0), (0, 0)]);
    add(&[3, 4], &[2, 2], &[2, 2], &[(0, 0), (0, 0)]);
    add(&[4, 4], &[2, 2], &[2, 2], &[(0, 0), (0, 0)]);
    add(&[3, 4], &[2, 3], &[1, 2], &[(1, 0), (1, 1)]);
    add(&[2, 3], &[1, 2], &[1, 1], &[(0, 0), (0, 1)]);
    add(&[5, 2], &[3, 1], &[2, 1], &[(1, 1), (0, 0)]);
    add(&[2, 2, 3], &[1, 2, 2], &[1, 1, 2], &[(0, 0), (0, 1), (1, 0)]);
    add(&[2, 1, 4], &[1, 1, 2], &[1, 1, 2], &[(0, 0), (0, 0), (0, 0)]);
    add(&[1, 2, 3, 3], &[1, 1, 2, 2], &[1, 1, 1, 2], &[(0, 0), (0, 0), (1, 0), (0, 1)]);
    add(&[1, 2, 2, 2, 2], &[1, 1, 2, 1, 2], &[1, 1, 1, 2, 1], &[(0, 0), (0, 0), (0, 0), (0, 0), (1, 1)]);
    v
}
/// the window reduction: `f` of the elements under the window, given the number of positions in it
pub fn window(a: &Arr, w: &[usize], s: &[usize], p: &[(usize, usize)], f: impl Fn(&[E], usize) -> E) -> Arr {
    let n = a.shape.len();
    let o: Vec<usize> = (0..n).map(|k| (a.shape[k] + p[k].0 + p[k].1 - w[k]) / s[k] + 1).collect();
    Arr::gen(&o, |ix| {
        let mut l = vec![];
        for k in indices(w) {
            let pos: Vec<i64> = (0..n).map(|d| (ix[d] * s[d] + k[d]) as i64 - p[d].0 as i64).collect();
            if (0..n).all(|d| pos[d] >= 0 && pos[d] < a.shape[d] as i64) {
                l.push(a.at(&pos.iter().map(|&v| v as usize).collect::<Vec<_>>()));
            }
        }
        f(&l, w.iter().product())
    })
}
fn maxl(v: &[E]) -> E {
    v[1..].iter().fold(v[0], |a, &b| a.max(b))
}
fn minl(v: &[E]) -> E {
    v[1..].iter().fold(v[0], |a, &b| a.min(b))
}
pub fn wref(kind: &str, a: &Arr, w: &[usize], s: &[usize], p: &[(usize, usize)]) -> Arr {
    match kind {
        "max" => window(a, w, s, p, |l, _| maxl(l)),
        "min" => window(a, w, s, p, |l, _| minl(l)),
        "sum" => window(a, w, s, p, |l, _| l.iter().cloned().sum()),
        _ => window(a, w, s, p, |l, k| l.iter().cloned().sum::<E>() / c(k as f64)),
    }
}
pub fn windows(cs: &mut Cases, grad: bool) {
    let th = cs.thorough;
    for (k, w) in wins(th).into_iter().enumerate() {
        let w = std::rc::Rc::new(w);
        for (q, kind) in ["max", "mean", "sum", "min"].into_iter().enumerate() {
            // windows that lie in the padding alone have no extreme element
            let cmp = kind == "max" || kind == "min";
            let size = w.n.iter().product::<usize>();
            if cmp && ((0..w.n.len()).any(|d| empty(w.n[d], w.w[d], w.s[d], w.p[d])) || size > if grad { 9 } else { 12 }) {
                continue;
            }
            if grad && !th && w.n.len() == 1 && (k + q) % 3 != 0 {
                continue;
            }
            let (w1, w2) = (w.clone(), w.clone());
            op(
                cs,
                grad,
                format!("window/{}/n{:?}w{:?}s{:?}p{:?}", kind, w.n, w.w, w.s, w.p),
                vec![opd(&w.n)],
                move |_, t| t[0].reduce_window(&w1.w[..], &w1.s[..], &w1.p, kind).s(),
                move |a| wref(kind, &a[0], &w2.w, &w2.s, &w2.p),
            );
        }
    }
}
fn empty(n: usize, w: usize, s: usize, p: (usize, usize)) -> bool {
    (0..=(n + p.0 + p.1 - w) / s).any(|o| (0..w).all(|k| o * s + k < p.0 || o * s + k - p.0 >= n))
}
pub fn pools(cs: &mut Cases) {
    use hodu_nn::{module::Module, *};
    macro_rules! pool {
        ($d:expr, $ty:ident, $kind:expr) => {
            for (n, k, s, p) in [(4usize, 2usize, 2usize, 0usize), (4, 2, 1, 0), (5, 3, 2, 1), (4, 3, 1, 1), (3, 2, 2, 1)] {
                if $d == 3 && n > 4 {
                    continue;
                }
                if $d >= 2 && $kind == "max" && n > 3 {
                    continue;
                }
                let n = if $d == 3 && $kind == "max" { 2 } else { n };
                if k > n + 2 * p {
                    continue;
                }
                let mut sh = vec![2, 1];
                sh.extend(vec![n; $d]);
                if $d == 2 && n > 3 {
                    sh[3] = n - 1;
                }
                if $d == 3 {
                    sh[0] = 1;
                }
                op(
                    cs,
                    false,
                    format!("{}/{}k{}s{}p{}", stringify!($ty), n, k, s, p),
                    vec![opd(&sh)],
                    move |_, t| $ty::new(k, s, p).forward(&t[0]).s(),
                    move |a| {
                        let mut w = vec![1, 1];
                        w.extend(vec![k; $d]);
                        let mut st = vec![1, 1];
                        st.extend(vec![s; $d]);
                        let mut pd = vec![(0, 0); 2];
                        pd.extend(vec![(p, p); $d]);
                        wref($kind, &a[0], &w, &st, &pd)
                    },
                );
            }
        };
    }

    pool!(1, MaxPool1D, "max");
    pool!(2, MaxPool2D, "max");
    pool!(3, MaxPool3D, "max");
    pool!(1, AvgPool1D, "mean");
    pool!(2, AvgPool2D, "mean");
    pool!(3, AvgPool3D, "mean");
    // adaptive pooling into equal parts
    fn parts(kind: &str, a: &Arr, o: &[usize]) -> Arr {
        let mut w = vec![1, 1];
        w.extend(o.iter().enumerate().map(|(k, o)| a.shape[2 + k] / o));
        let p = vec![(0, 0); w.len()];
        wref(kind, a, &w, &w, &p)
    }
    for (n, o) in [(4usize, 2usize), (6, 3), (3, 1), (3, 3), (4, 1)] {
        op(cs, false, format!("AdaptiveAvgPool1D/{}to{}", n, o), vec![opd(&[2, 2, n])], move |_, t| AdaptiveAvgPool1D::new(o).forward(&t[0]).s(), move |a| parts("mean", &a[0], &[o]));
        op(cs, false, format!("AdaptiveMaxPool1D/{}to{}", n, o), vec![opd(&[1, 1, n])], move |_, t| AdaptiveMaxPool1D::new(o).forward(&t[0]).s(), move |a| parts("max", &a[0], &[o]));
    }
    for (n, o) in [([4usize, 3usize], (2usize, 1usize)), ([2, 4], (1, 2)), ([2, 3], (2, 3))] {
        op(
            cs,
            false,
            format!("AdaptiveAvgPool2D/{:?}to{:?}", n, o),
            vec![opd(&[2, 1, n[0], n[1]])],
            move |_, t| AdaptiveAvgPool2D::new(o).forward(&t[0]).s(),
            move |a| parts("mean", &a[0], &[o.0, o.1]),
        );
        op(
            cs,
            false,
            format!("AdaptiveMaxPool2D/{:?}to{:?}", n, o),
            vec![opd(&[1, 1, n[0], n[1]])],
            move |_, t| AdaptiveMaxPool2D::new(o).forward(&t[0]).s(),
            move |a| parts("max", &a[0], &[o.0, o.1]),
        );
    }
    for (n, o) in [([2usize, 4usize, 1usize], (2usize, 2usize, 1usize)), ([2, 2, 2], (1, 2, 1))] {
        op(
            cs,
            false,
            format!("AdaptiveAvgPool3D/{:?}to{:?}", n, o),
            vec![opd(&[2, 1, n[0], n[1], n[2]])],
            move |_, t| AdaptiveAvgPool3D::new(o).forward(&t[0]).s(),
            move |a| parts("mean", &a[0], &[o.0, o.1, o.2]),
        );
        op(
            cs,
            false,
            format!("AdaptiveMaxPool3D/{:?}to{:?}", n, o),
            vec![opd(&[1, 1, n[0], n[1], n[2]])],
            move |_, t| AdaptiveMaxPool3D::new(o).forward(&t[0]).s(),
            move |a| parts("max", &a[0], &[o.0, o.1, o.2]),
        );
    }
    let _ = mean;
}

// ---- joining, splitting, flipping, scanning ----
fn cat(a: &[Arr], d: usize) -> Arr {
    let mut s = a[0].shape.clone();
    s[d] = a.iter().map(|x| x.shape[d]).sum();
    Arr::gen(&s, |ix| {
        let mut j = ix.to_vec();
        for x in a {
            if j[d] < x.shape[d] {
                return x.at(&j);
            }
            j[d] -= x.shape[d];
        }
        unreachable!()
    })
}
fn stack(a: &[Arr], d: usize) -> Arr {
    let mut s = a[0].shape.clone();
    s.insert(d, a.len());
    Arr::gen(&s, |ix| {
        let mut j = ix.to_vec();
        let k = j.remove(d);
        a[k].at(&j)
    })
}
fn part(a: &Arr, d: usize, from: usize, len: usize) -> Arr {
    let mut s = a.shape.clone();
    s[d] = len;
    Arr::gen(&s, |ix| {
        let mut j = ix.to_vec();
        j[d] += from;
        a.at(&j)
    })
}
fn refs(t: &[Tensor]) -> Vec<&Tensor> {
    t.iter().collect()
}
/// write a dimension positively or negatively
fn sgn(d: usize, n: usize, neg: bool) -> i32 {
    if neg {
        d as i32 - n as i32
    } else {
        d as i32
    }
}
pub fn joins(cs: &mut Cases, grad: bool) {
    // sizes of the operands along the joined dimension
    for base in [vec![1usize], vec![2, 3], vec![2, 1, 2], vec![1, 2, 1, 3]] {
        let n = base.len();
        for d in 0..n {
            for (q, sizes) in [vec![2usize], vec![1, 2], vec![2, 2], vec![3, 1, 2], vec![1, 1, 1, 2], vec![2, 1, 3, 1, 2]].into_iter().enumerate() {
                if n > 2 && sizes.len() > 3 {
                    continue;
                }
                let neg = (d + q) % 2 == 1;
                let ops: Vec<Op> = sizes
                    .iter()
                    .map(|&k| {
                        let mut s = base.clone();
                        s[d] = k;
                        opd(&s)
                    })
                    .collect();
                let dd = sgn(d, n, neg);
                op(
                    cs,
                    grad,
                    format!("concat/{:?}d{}{:?}", base, dd, sizes),
                    ops,
                    move |_, t| if neg { Tensor::cat(&refs(t), dd).s() } else { Tensor::concat(&refs(t), dd).s() },
                    move |a| cat(a, d),
                );
            }
        }
        for d in 0..=n {
            for k in 1..=4 {
                if n > 2 && k > 2 {
                    continue;
                }
                let neg = (d + k) % 2 == 1;
                let dd = sgn(d, n + 1, neg);
                op(cs, grad, format!("stack/{:?}d{}x{}", base, dd, k), vec![opd(&base); k], move |_, t| Tensor::stack(&refs(t), dd).s(), move |a| stack(a, d));
            }
        }
        // the same tensor twice
        let b2 = base.clone();
        op(cs, grad, format!("concat/self{:?}", base), vec![opd(&base)], move |_, t| Tensor::concat(&[&t[0], &t[0]], b2.len() as i32 - 1).s(), |a| cat(&[a[0].clone(), a[0].clone()], a[0].shape.len() - 1));
    }
    op(cs, grad, "stack/scalars", vec![opd(&[]); 3], |_, t| Tensor::stack(&refs(t), 0).s(), |a| stack(a, 0));
    // splitting: every part, and a weighted join of all parts
    for base in [vec![5usize], vec![3, 4], vec![4, 2, 3]] {
        let n = base.len();
        for d in 0..n {
            let m = base[d];
            let mut ways: Vec<Vec<usize>> = vec![vec![m], vec![1; m], vec![1, m - 1], vec![m - 1, 1]];
            if m > 3 {
                ways.push(vec![2, 1, m - 3]);
            }
            for (q, sizes) in ways.into_iter().enumerate() {
                let neg = (d + q) % 2 == 1;
                let dd = sgn(d, n, neg);
                for k in 0..sizes.len() {
                    let (s1, s2) = (sizes.clone(), sizes.clone());
                    let len = sizes.len();
                    op(
                        cs,
                        grad,
                        format!("split/{:?}d{}{:?}#{}", base, dd, sizes, k),
                        vec![opd(&base)],
                        move |x, t| {
                            let p = t[0].split(&s1, dd).s()?;
                            x.check("parts", p.len() == len, format!("{} parts", p.len()));
                            Ok(p[k].clone())
                        },
                        move |a| part(&a[0], d, s2[..k].iter().sum(), s2[k]),
                    );
                }
                if sizes.len() > 1 {
                    let (s1, s2) = (sizes.clone(), sizes.clone());
                    op(
                        cs,
                        grad,
                        format!("splitjoin/{:?}d{}{:?}", base, dd, sizes),
                        vec![opd(&base)],
                        move |_, t| {
                            let p = t[0].split(&s1, dd).s()?;
                            let q: Vec<Tensor> = p.iter().rev().map(|p| p.mul(p).s()).collect::<Result<_, _>>()?;
                            Tensor::concat(&refs(&q), dd).s()
                        },
                        move |a| {
                            let mut at = 0;
                            let mut p: Vec<Arr> = s2
                                .iter()
                                .map(|&k| {
                                    at += k;
                                    part(&a[0], d, at - k, k)
                                })
                                .collect();
                            p.reverse();
                            cat(&p.iter().map(|p| p.mul(p)).collect::<Vec<_>>(), d)
                        },
                    );
                }
            }
            for k in 1..=m {
                let per = m.div_ceil(k);
                let count = m.div_ceil(per);
                for j in 0..count {
                    op(
                        cs,
                        grad,
                        format!("chunk/{:?}d{}k{}#{}", base, d, k, j),
                        vec![opd(&base)],
                        move |x, t| {
                            let p = t[0].chunk(k, d as i32).s()?;
                            x.check("parts", p.len() <= k && p.len() > j, format!("{} parts", p.len()));
                            Ok(p[j].clone())
                        },
                        move |a| part(&a[0], d, j * per, per.min(m - j * per)),
                    );
                }
            }
        }
    }
    // flips and scans
    for base in [vec![4usize], vec![1], vec![2, 3], vec![3, 2, 2], vec![2, 1, 2, 3]] {
        let n = base.len();
        for m in 1..1u32 << n {
            let ds: Vec<usize> = (0..n).filter(|k| m >> k & 1 == 1).collect();
            let di: Vec<i32> = ds.iter().map(|&d| sgn(d, n, (d + m as usize) % 2 == 1)).collect();
            op(
                cs,
                grad,
                format!("flip/{:?}{:?}", base, di),
                vec![opd(&base)],
                move |_, t| t[0].flip(&di).s(),
                move |a| {
                    Arr::gen(&a[0].shape, |ix| a[0].at(&ix.iter().enumerate().map(|(k, &i)| if ds.contains(&k) { a[0].shape[k] - 1 - i } else { i }).collect::<Vec<_>>()))
                },
            );
        }
        for d in 0..n {
            let dd = sgn(d, n, (d + n) % 2 == 1);
            op(
                cs,
                grad,
                format!("cumsum/{:?}d{}", base, dd),
                vec![opd(&base)],
                move |_, t| t[0].cumsum(dd).s(),
                move |a| {
                    Arr::gen(&a[0].shape, |ix| {
                        (0..=ix[d])
                            .map(|k| {
                                let mut j = ix.to_vec();
                                j[d] = k;
                                a[0].at(&j)
                            })
                            .sum()
                    })
                },
            );
        }
    }
}

// ---- padding ----
pub fn pads(cs: &mut Cases, grad: bool) {
    let mut ways: Vec<(Vec<usize>, Vec<(usize, usize)>)> = vec![];
    for n in [1usize, 2, 3, 5] {
        for p in [(0, 0), (1, 0), (0, 1), (1, 2), (2, 2), (3, 1), (4, 4), (0, 5)] {
            ways.push((vec![n], vec![p]));
        }
    }
    for (n, p) in [
        (vec![2usize, 3usize], vec![(1, 1), (1, 1)]),
        (vec![3, 3], vec![(2, 1), (0, 2)]),
        (vec![3, 2], vec![(0, 0), (1, 0)]),
        (vec![2, 2], vec![(1, 0), (0, 1)]),
        (vec![1, 3], vec![(1, 2), (2, 2)]),
        (vec![2, 2, 2], vec![(1, 0), (1, 1), (0, 1)]),
        (vec![2, 1, 3], vec![(0, 0), (0, 0), (2, 1)]),
        (vec![1, 2, 2, 2], vec![(0, 0), (1, 0), (1, 1), (0, 1)]),
    ] {
        ways.push((n, p));
    }
    for (n, p) in ways {
        for mode in ["constant", "reflect", "replicate", "circular", "edge", "wrap"] {
            // a reflection needs another element to reflect, and a gradient check needs distinct paths only once
            if mode == "reflect" && n.iter().zip(&p).any(|(n, p)| *n == 1 && (p.0 > 0 || p.1 > 0)) {
                continue;
            }
            if (mode == "edge" || mode == "wrap") && (grad || n.len() == 1) {
                continue;
            }
            let (p1, p2) = (p.clone(), p.clone());
            op(
                cs,
                grad,
                format!("pad/{}{:?}{:?}", mode, n, p),
                vec![opd(&n)],
                move |x, t| match mode {
                    "constant" if x.f64 => t[0].pad_constant(&p1, 0.75f64).s(),
                    "constant" => t[0].pad_constant(&p1, 0.75f32).s(),
                    "edge" => t[0].pad_edge(&p1).s(),
                    "wrap" => t[0].pad_wrap(&p1).s(),
                    "reflect" => t[0].pad_reflect(&p1).s(),
                    "replicate" => t[0].pad_replicate(&p1).s(),
                    _ => t[0].pad(&p1, "circular", 0.0f32).s(),
                },
                move |a| {
                    let a = &a[0];
                    let o: Vec<usize> = a.shape.iter().zip(&p2).map(|(n, p)| n + p.0 + p.1).collect();
                    Arr::gen(&o, |ix| {
                        let mut j = vec![];
                        for k in 0..ix.len() {
                            let n = a.shape[k] as i64;
                            let i = ix[k] as i64 - p2[k].0 as i64;
                            j.push(if i >= 0 && i < n {
                                i as usize
                            } else {
                                match mode {
                                    "constant" => return c(0.75),
                                    "reflect" => {
                                        let i = i.rem_euclid(2 * (n - 1));
                                        (if i < n { i } else { 2 * (n - 1) - i }) as usize
                                    }
                                    "replicate" | "edge" => i.clamp(0, n - 1) as usize,
                                    _ => i.rem_euclid(n) as usize,
                                }
                            });
                        }
                        a.at(&j)
                    })
                },
            );
        }
    }
}
