//! P10 indexing (grad: the same under P19)
use super::util::*;
use crate::ir::*;
use hodu_core::tensor::Tensor;
use hodu_core::types::DType;

/// a concrete i32 index tensor of `shape` with the given elements (row-major), stored with layout `l`
pub fn itensor(shape: &[usize], l: Lay, v: &[i32]) -> Result<Tensor, String> {
    let n = shape.len();
    let junk = v.first().copied().unwrap_or(0);
    let at = |ix: &[usize]| v[ix.iter().zip(shape).fold(0, |a, (i, s)| a * s + i)];
    let mk = |s: &[usize], f: &dyn Fn(&[usize]) -> i32| -> Result<Tensor, String> {
        let d: Vec<i32> = indices(s).iter().map(|ix| f(ix)).collect();
        Tensor::new(d).s()?.reshape(s).s()
    };
    let mut s = shape.to_vec();
    match l {
        Lay::T if n >= 2 => {
            s.swap(n - 1, n - 2);
            mk(&s, &|ix| {
                let mut j = ix.to_vec();
                j.swap(n - 1, n - 2);
                at(&j)
            })?
            .transpose(-1, -2)
            .s()
        }
        Lay::Step if n >= 1 => {
            s[n - 1] = s[n - 1] * 2 + 1;
            mk(&s, &|ix| {
                if ix[n - 1] % 2 == 0 {
                    return junk;
                }
                let mut j = ix.to_vec();
                j[n - 1] /= 2;
                at(&j)
            })?
            .slice((n - 1) as i32, 1, None, 2)
            .s()
        }
        Lay::Off if n >= 1 => {
            s[0] += 2;
            mk(&s, &|ix| {
                if ix[0] == 0 || ix[0] > shape[0] {
                    return junk;
                }
                let mut j = ix.to_vec();
                j[0] -= 1;
                at(&j)
            })?
            .slice(0, 1, Some(1 + shape[0] as i32), 1)
            .s()
        }
        Lay::Bc if n >= 1 && indices(shape).iter().all(|ix| {
            let mut j = ix.clone();
            j[0] = 0;
            at(ix) == at(&j)
        }) =>
        {
            s[0] = 1;
            mk(&s, &|ix| at(ix))?.broadcast(shape).s()
        }
        _ => mk(shape, &|ix| at(ix)),
    }
}
fn wrap(i: i32, n: usize) -> usize {
    if i < 0 {
        (i + n as i32) as usize
    } else {
        i as usize
    }
}
/// all vectors of length `k` over -n..n
fn vectors(n: usize, k: usize) -> Vec<Vec<i32>> {
    let mut v = vec![vec![]];
    for _ in 0..k {
        v = v.into_iter().flat_map(|p: Vec<i32>| (-(n as i32)..n as i32).map(move |i| [p.clone(), vec![i]].concat())).collect();
    }
    v
}
fn distinct(v: &[i32], n: usize) -> bool {
    let mut s: Vec<usize> = v.iter().map(|&i| wrap(i, n)).collect();
    s.sort();
    s.windows(2).all(|w| w[0] != w[1])
}
fn dimv(d: usize, n: usize, neg: bool) -> i32 {
    if neg {
        d as i32 - n as i32
    } else {
        d as i32
    }
}

pub fn indexing(cs: &mut Cases, grad: bool) {
    let th = cs.thorough;
    let mut r = Rng(77);
    // one-dimensional index lists
    for sh in [vec![3usize], vec![2, 3], vec![3, 2], vec![2, 2, 3], vec![2, 1, 2, 2]] {
        for d in 0..sh.len() {
            let n = sh[d];
            let mut lists: Vec<Vec<i32>> = vectors(n, 1);
            lists.extend(vectors(n, 2));
            for _ in 0..3 {
                lists.push((0..4).map(|_| r.range(-(n as i64), n as i64 - 1) as i32).collect());
            }
            for (k, l) in lists.into_iter().enumerate() {
                if grad && k % 3 != 0 && !th {
                    continue;
                }
                let il = LAYS[r.below(4)];
                let neg = r.below(2) == 0;
                let nd = sh.len();
                let (i1, i2) = (l.clone(), l.clone());
                op(
                    cs,
                    grad,
                    format!("select/{sh:?}d{d}{l:?}{il:?}"),
                    vec![opd(&sh)],
                    move |_, t| t[0].index_select(dimv(d, nd, neg), &itensor(&[i1.len()], il, &i1)?).s(),
                    move |a| {
                        let mut s = a[0].shape.clone();
                        s[d] = i2.len();
                        Arr::gen(&s, |ix| {
                            let mut j = ix.to_vec();
                            j[d] = wrap(i2[ix[d]], n);
                            a[0].at(&j)
                        })
                    },
                );
                if distinct(&l, n) {
                    let (i1, i2) = (l.clone(), l.clone());
                    let mut vs = sh.clone();
                    vs[d] = l.len();
                    op(
                        cs,
                        grad,
                        format!("put/{sh:?}d{d}{l:?}{il:?}"),
                        vec![opd(&sh), opd(&vs)],
                        move |_, t| t[0].index_put(dimv(d, nd, neg), &itensor(&[i1.len()], il, &i1)?, &t[1]).s(),
                        move |a| {
                            let mut o = a[0].clone();
                            for ix in indices(&a[1].shape) {
                                let mut j = ix.clone();
                                j[d] = wrap(i2[ix[d]], n);
                                o.set(&j, a[1].at(&ix));
                            }
                            o
                        },
                    );
                }
            }
        }
    }
    // index tensors of the rank of the input
    for (sh, is) in [
        (vec![3usize], vec![2usize]),
        (vec![3], vec![4]),
        (vec![2, 3], vec![2, 2]),
        (vec![2, 3], vec![2, 3]),
        (vec![3, 2], vec![2, 2]),
        (vec![3, 2], vec![1, 2]),
        (vec![3, 3], vec![2, 1]),
        (vec![2, 2, 3], vec![2, 2, 2]),
        (vec![2, 3, 2], vec![1, 2, 2]),
    ] {
        for d in 0..sh.len() {
            if (0..sh.len()).any(|k| k != d && is[k] > sh[k]) {
                continue;
            }
            let n = sh[d];
            let k: usize = is.iter().product();
            let lists: Vec<Vec<i32>> = if k <= 2 { vectors(n, k) } else { (0..if th { 60 } else { 8 }).map(|_| (0..k).map(|_| r.range(-(n as i64), n as i64 - 1) as i32).collect()).collect() };
            for (q, l) in lists.into_iter().enumerate() {
                if grad && q % 2 != 0 && !th {
                    continue;
                }
                let il = LAYS[r.below(5)];
                let nd = sh.len();
                let neg = r.below(2) == 0;
                let name = format!("{sh:?}d{d}{is:?}{l:?}{il:?}");
                let (i1, i2, s1, s2) = (l.clone(), l.clone(), is.clone(), is.clone());
                op(
                    cs,
                    grad,
                    format!("gather/{name}"),
                    vec![opd(&sh)],
                    move |_, t| t[0].gather(dimv(d, nd, neg), &itensor(&s1, il, &i1)?).s(),
                    move |a| {
                        let mut q = 0;
                        Arr::gen(&s2, |ix| {
                            let mut j = ix.to_vec();
                            j[d] = wrap(i2[q], n);
                            q += 1;
                            a[0].at(&j)
                        })
                    },
                );
                let dis = {
                    // no element is written twice
                    let mut t: Vec<Vec<usize>> = indices(&is).into_iter().zip(&l).map(|(mut ix, &i)| { ix[d] = wrap(i, n); ix }).collect();
                    t.sort();
                    t.windows(2).all(|w| w[0] != w[1])
                };
                for kind in ["set", "add", "max", "min"] {
                    if kind == "set" && !dis || (kind == "max" || kind == "min") && k > 4 || kind == "max" && q % 3 == 1 || kind == "min" && q % 3 == 2 {
                        continue;
                    }
                    let (i1, i2, s1) = (l.clone(), l.clone(), is.clone());
                    op(
                        cs,
                        grad,
                        format!("scatter_{kind}/{name}"),
                        vec![opd(&sh), opd(&is)],
                        move |_, t| {
                            let ix = itensor(&s1, il, &i1)?;
                            let dim = dimv(d, nd, neg);
                            match kind {
                                "set" => t[0].scatter(dim, &ix, &t[1]),
                                "add" => t[0].scatter_add(dim, &ix, &t[1]),
                                "max" => t[0].scatter_max(dim, &ix, &t[1]),
                                _ => t[0].scatter_min(dim, &ix, &t[1]),
                            }
                            .s()
                        },
                        move |a| {
                            let mut o = a[0].clone();
                            for (ix, &i) in indices(&a[1].shape).into_iter().zip(&i2) {
                                let mut j = ix.clone();
                                j[d] = wrap(i, n);
                                let (x, y) = (o.at(&j), a[1].at(&ix));
                                o.set(&j, match kind {
                                    "set" => y,
                                    "add" => x + y,
                                    "max" => x.max(y),
                                    _ => x.min(y),
                                });
                            }
                            o
                        },
                    );
                }
            }
        }
    }
    if grad {
        return;
    }
    for sh in [vec![3usize], vec![2, 2], vec![1, 2, 2]] {
        for nc in 1..=3usize {
            let k: usize = sh.iter().product();
            for axis in -(sh.len() as i32) - 1..=sh.len() as i32 {
                for il in LAYS {
                    let sh = sh.clone();
                    let l: Vec<i32> = (0..k).map(|_| r.range(0, nc as i64 - 1) as i32).collect();
                    cs.add(format!("onehot/{sh:?}/{nc}/{axis}/{il:?}{l:?}"), move |x| {
                        let ax = wrap(axis, sh.len() + 1);
                        let mut s = sh.clone();
                        s.insert(ax, nc);
                        let t = itensor(&sh, il, &l)?.onehot(nc as i32, axis, DType::F32).s()?;
                        let want = Arr::gen(&s, |ix| {
                            let mut j = ix.to_vec();
                            let cls = j.remove(ax);
                            let p = j.iter().zip(&sh).fold(0, |a, (i, s)| a * s + i);
                            c((l[p] as usize == cls) as u8 as f64)
                        });
                        x.eq("onehot", &t, &want)
                    });
                }
            }
        }
    }
}
