//! P12 einsum, P13 determinant, inverse, trace and solve; P20 their gradients
use super::linear::{bmm, mm};
use super::util::*;
use crate::ir::*;
use hodu_core::tensor::Tensor;

/// sum over every assignment of the subscripts
pub fn einsum(eq: &str, ins: &[&Arr]) -> Arr {
    let eq = eq.replace(' ', "");
    let (l, r) = match eq.split_once("->") {
        Some((l, r)) => (l.to_string(), Some(r.to_string())),
        None => (eq.clone(), None),
    };
    let subs: Vec<Vec<char>> = l.split(',').map(|s| s.chars().collect()).collect();
    let mut all: Vec<char> = subs.concat();
    let r: Vec<char> = match r {
        Some(r) => r.chars().collect(),
        None => {
            let mut o: Vec<char> = all.iter().copied().filter(|c| all.iter().filter(|d| d == &c).count() == 1).collect();
            o.sort();
            o
        }
    };
    all.sort();
    all.dedup();
    let size = |c: char| {
        subs.iter().zip(ins).find_map(|(s, a)| s.iter().position(|d| *d == c).map(|p| a.shape[p])).unwrap()
    };
    let rest: Vec<char> = all.iter().copied().filter(|c| !r.contains(c)).collect();
    let rs: Vec<usize> = rest.iter().map(|c| size(*c)).collect();
    let n: usize = rs.iter().product();
    Arr::gen(&r.iter().map(|c| size(*c)).collect::<Vec<_>>(), |ix| {
        (0..n)
            .map(|mut q| {
                let mut v = vec![0; rest.len()];
                for d in (0..rest.len()).rev() {
                    v[d] = q % rs[d];
                    q /= rs[d];
                }
                let val = |c: char| match r.iter().position(|d| *d == c) {
                    Some(p) => ix[p],
                    None => v[rest.iter().position(|d| *d == c).unwrap()],
                };
                subs.iter()
                    .zip(ins)
                    .map(|(s, a)| a.at(&s.iter().map(|c| val(*c)).collect::<Vec<_>>()))
                    .reduce(|x, y| x * y)
                    .unwrap()
            })
            .sum()
    })
}
fn sz(c: char) -> usize {
    match c {
        'i' | 'n' => 3,
        'z' => 1,
        _ => 2,
    }
}
const EQS: &[&str] = &[
    "ij->ij", "ij->ji", "ij->i", "ij->j", "ij->", "ij", "ji", "i->", "i->i", "->", ",->", ",i->i", "ii->i", "ii->", "ii", "iij->j", "iij->ij",
    "iji->ji", "iii->i", "ijk->kij", "ijk->k", "ijk->ki", "i,i->i", "i,i->", "i,j->ij", "i,j->ji", "i,j->i", "i,j", "ij,jk->ik",
    "ij,jk", "ij,jk->ki", "ij,kj->ik", "ij,ij->", "ij,ij->ij", "ij,ji->", "ij,j->i", "j,ij->i", "bij,bjk->bik", "bij,jk->bik", "bij,bjk->ik",
    "ii,i->i", "ii,jj->ij", "ii,ij->j", "iz,zj->ij", "ij,k->", "ij , j -> i", "a,b,c->cab", "ij,jk,kl->il", "ij,jk,ki->", "i,i,i->i",
    "ij,ij,j->i", "a,b,c,d->dbca", "ij,jk,kl,lm->im", "i,i,i,i->", "ab,bc,cd,da->ac", "abcd->dcba", "abcd->bd", "ab,cd,ac->bd", "ij,k,ik->j",
];
fn ops(eq: &str) -> Vec<Vec<usize>> {
    let eq = eq.replace(' ', "");
    eq.split("->").next().unwrap().split(',').map(|s| s.chars().map(sz).collect()).collect()
}
pub fn einsums(cs: &mut Cases) {
    for f in [false, true] {
        for eq in EQS {
            for l in LAYS {
                // the first operand laid out, the others laid out, all of them
                for which in 0..3 {
                    if l == Lay::Plain && which > 0 || ops(eq).len() == 1 && which > 0 || f && which < 2 && ops(eq).len() > 1 {
                        continue;
                    }
                    cs.add(format!("{}/{}/{:?}{}", if f { "f64" } else { "f32" }, eq, l, which), move |x| {
                        x.f64 = f;
                        let mut ts = vec![];
                        let mut aa = vec![];
                        for (i, s) in ops(eq).iter().enumerate() {
                            let on = which == 2 || (i == 0) == (which == 0);
                            let (t, a) = laid(x, s, if on { l } else { Lay::Plain }, -2.0, 2.0)?;
                            ts.push(t);
                            aa.push(a);
                        }
                        let r = Tensor::einsum(eq, &ts.iter().collect::<Vec<_>>()).s()?;
                        x.eq("einsum", &r, &einsum(eq, &aa.iter().collect::<Vec<_>>()))
                    });
                }
            }
        }
    }
    cs.add("same", |x| {
        let (a, aa) = x.tensor_in(&[2, 2], -2.0, 2.0);
        let t = a.transpose(0, 1).s()?;
        x.eq("aa", &Tensor::einsum("ij,jk->ik", &[&a, &a]).s()?, &mm(&aa, &aa))?;
        x.eq("at", &Tensor::einsum("ij,jk->ik", &[&a, &t]).s()?, &mm(&aa, &aa.t()))?;
        x.eq("ta", &Tensor::einsum("ij,jk->ki", &[&t, &a]).s()?, &mm(&aa.t(), &aa).t())
    });
    // what is not an einsum is refused, not answered
    cs.add("refused", |x| {
        let (a, _) = x.tensor_in(&[2, 3], -2.0, 2.0);
        let (v, _) = x.tensor_in(&[2], -2.0, 2.0);
        for (eq, ts) in [
            ("ij,jk->ik", vec![&a]),
            ("ij->ik", vec![&a]),
            ("ii->i", vec![&a]),
            ("ij,ij->", vec![&a, &v]),
            ("i->", vec![&a]),
            ("ijk->", vec![&a]),
            ("i->ii", vec![&v]),
            ("ij->iji", vec![&a]),
            ("ij,ji->", vec![&a, &a]),
            ("i->j->", vec![&v]),
            ("i,i,i,i,i->", vec![&v, &v, &v, &v, &v]),
            ("i", vec![]),
        ] {
            if Tensor::einsum(eq, &ts).is_ok() {
                x.fail("refused", &format!("{} over {} operands is accepted", eq, ts.len()));
            }
        }
        Ok(())
    });
    cs.add("empty", |x| {
        let (a, _) = x.tensor_in(&[2, 0], -2.0, 2.0);
        let (b, _) = x.tensor_in(&[0, 3], -2.0, 2.0);
        x.eq("zero", &Tensor::einsum("ij,jk->ik", &[&a, &b]).s()?, &Arr::gen(&[2, 3], |_| c(0.0)))?;
        x.eq("none", &Tensor::einsum("ij,jk->ki", &[&b.transpose(0, 1).s()?, &b]).s()?, &Arr::gen(&[3, 3], |_| c(0.0)))?;
        let (d, _) = x.tensor_in(&[2, 3], -2.0, 2.0);
        x.eq("none", &Tensor::einsum("ij,ik->jk", &[&a, &d]).s()?, &Arr::gen(&[0, 3], |_| c(0.0)))?;
        x.eq("none", &Tensor::einsum("ij->j", &[&a]).s()?, &Arr::gen(&[0], |_| c(0.0)))
    });
}

fn minor(a: &Arr, r: usize, c: usize) -> Arr {
    let n = a.shape[0];
    Arr::gen(&[n - 1, n - 1], |ix| a.at(&[ix[0] + (ix[0] >= r) as usize, ix[1] + (ix[1] >= c) as usize]))
}
/// Laplace expansion
pub fn det(a: &Arr) -> E {
    let n = a.shape[0];
    if n == 0 {
        return c(1.0);
    }
    (0..n)
        .map(|c| {
            let t = a.at(&[0, c]) * det(&minor(a, 0, c));
            if c % 2 == 1 { -t } else { t }
        })
        .sum()
}
pub fn inv(a: &Arr) -> Arr {
    let n = a.shape[0];
    let d = det(a);
    Arr::gen(&[n, n], |ix| {
        let m = det(&minor(a, ix[1], ix[0]));
        (if (ix[0] + ix[1]) % 2 == 1 { -m } else { m }) / d.clone()
    })
}
/// applies `f` to every matrix of a batch
pub fn per(a: &Arr, f: impl Fn(&Arr) -> Arr) -> Arr {
    let k = a.shape.len() - 2;
    let (bs, ms) = (a.shape[..k].to_vec(), a.shape[k..].to_vec());
    let of = |b: &[usize]| {
        f(&Arr::gen(&ms, |ix| {
            let mut p = b.to_vec();
            p.extend(ix);
            a.at(&p)
        }))
    };
    let probe = of(&vec![0; k]);
    let mut s = bs.clone();
    s.extend(&probe.shape);
    Arr::gen(&s, |ix| of(&ix[..k]).at(&ix[k..]))
}
fn single(s: &[usize], a: Arr) -> Arr {
    if s.len() == 2 { a.reshape(&[1]) } else { a }
}

const MATS: &[&[usize]] = &[&[1, 1], &[2, 2], &[3, 3], &[2, 2, 2], &[2, 1, 1], &[2, 1, 2, 2], &[1, 3, 3]];
fn dets(a: &Arr) -> Arr {
    per(a, |m| Arr::new(&[], vec![det(m)]))
}
/// every matrix of the batch is away from singular, with either sign of determinant
fn regular(x: &mut Cx, a: &Arr) {
    for d in dets(a).d {
        let b = d.gt(c(0.4)).or(d.lt(c(-0.4)));
        x.assume(b);
    }
}
/// a matrix of constants with a few symbolic elements
fn sparse(x: &mut Cx, shape: &[usize], r: &mut Rng, k: usize) -> Arr {
    let n: usize = shape.iter().product();
    let at: Vec<usize> = (0..k).map(|_| r.below(n)).collect();
    let d = (0..n)
        .map(|i| {
            let v = r.range(-6, 6) as f64 / 2.0;
            if at.contains(&i) { x.var(-2.0, 2.0) } else { x.var(v, v) }
        })
        .collect();
    Arr::new(shape, d)
}
pub fn linalg(cs: &mut Cases) {
    for f in [false, true] {
        for s in MATS {
            for l in LAYS {
                let n = s[s.len() - 1];
                if l == Lay::Bc && (s.len() == 2 && n > 1 || s[0] == 1) {
                    // rows repeated: singular
                    if l == Lay::Bc && n > 1 && s.len() == 2 {
                        cs.add(format!("det/{}/{:?}/{:?}", f, s, l), move |x| {
                            x.f64 = f;
                            let (t, a) = laid(x, s, l, -2.0, 2.0)?;
                            x.eq("det", &t.det().s()?, &single(s, dets(&a)))
                        });
                    }
                    continue;
                }
                cs.add(format!("det/{}/{:?}/{:?}", f, s, l), move |x| {
                    x.f64 = f;
                    let (t, a) = laid(x, s, l, -2.0, 2.0)?;
                    x.eq("det", &t.det().s()?, &single(s, dets(&a)))?;
                    let tr = per(&a, |m| Arr::new(&[], vec![(0..n).map(|i| m.at(&[i, i])).sum()]));
                    x.eq("trace", &t.trace().s()?, &single(s, tr))
                });
                cs.add(format!("inv/{}/{:?}/{:?}", f, s, l), move |x| {
                    x.f64 = f;
                    let (t, a) = laid(x, s, l, -2.0, 2.0)?;
                    regular(x, &a);
                    x.eq("inv", &t.inv().s()?, &per(&a, inv))
                });
            }
        }
        for (sa, sb) in [
            (vec![2usize, 2], vec![2usize]),
            (vec![2, 2], vec![2, 3]),
            (vec![2, 2, 2], vec![2, 2]),
            (vec![3, 2, 2], vec![3, 2]),
            (vec![2, 2, 2], vec![2, 2, 1]),
            (vec![2, 2, 2], vec![2]),
            (vec![3, 3], vec![3]),
        ] {
            for l in LAYS {
                if l == Lay::Bc && sa.len() == 2 {
                    continue;
                }
                let (sa, sb) = (sa.clone(), sb.clone());
                cs.add(format!("solve/{}/{:?}{:?}/{:?}", f, sa, sb, l), move |x| {
                    x.f64 = f;
                    let (a, aa) = laid(x, &sa, l, -2.0, 2.0)?;
                    let (b, bb) = laid(x, &sb, l, -2.0, 2.0)?;
                    regular(x, &aa);
                    let i = per(&aa, inv);
                    let w = if sb.len() == 1 || sb[..] == sa[..sa.len() - 1] {
                        let mut col = sb.clone();
                        col.push(1);
                        let r = bmm(&i, &bb.reshape(&col));
                        let n = r.shape.len();
                        let s = r.shape[..n - 1].to_vec();
                        r.reshape(&s)
                    } else {
                        mm(&i, &bb)
                    };
                    x.eq("solve", &a.solve(&b).s()?, &w)
                });
            }
        }
    }
    // sizes beyond the closed formulas pivot, on several signs and orders of pivots
    for n in [4usize, 5, 6] {
        for seed in 0..(if cs.thorough { 40 } else { 8 }) {
            for k in 1..3usize {
                if n > 4 && k > 1 && !cs.thorough {
                    continue;
                }
                cs.add(format!("pivot/{}/{}/{}", n, seed, k), move |x| {
                    x.f64 = seed % 2 == 1;
                    let mut r = Rng(1000 + seed * 17 + n as u64 + 5 * k as u64);
                    let a = sparse(x, &[n, n], &mut r, k);
                    let t = match seed % 3 {
                        0 => x.mk(&a),
                        1 => x.mk(&a.t()).transpose(0, 1).s()?,
                        _ => x.mk(&Arr::gen(&[n + 1, n], |ix| if ix[0] == 0 { c(9.0) } else { a.at(&[ix[0] - 1, ix[1]]) })).slice(0, 1, None, 1).s()?,
                    };
                    let d = det(&a);
                    x.eq("det", &t.det().s()?, &Arr::new(&[1], vec![d]))?;
                    let b = d.gt(c(0.5)).or(d.lt(c(-0.5)));
                    x.assume(b);
                    x.eq("inv", &t.inv().s()?, &inv(&a))
                });
            }
        }
        if n > 4 && !cs.thorough {
            continue;
        }
        cs.add(format!("pivot/batch/{}", n), move |x| {
            let mut r = Rng(77 + n as u64);
            let a = sparse(x, &[2, n, n], &mut r, 1);
            x.eq("det", &x.mk(&a).det().s()?, &dets(&a))
        });
        // an exact zero column
        cs.add(format!("pivot/singular/{}", n), move |x| {
            let mut r = Rng(78 + n as u64);
            let a = sparse(x, &[n, n], &mut r, 2);
            let a = Arr::gen(&[n, n], |ix| if ix[1] == 1 { c(0.0) } else { a.at(ix) });
            x.eq("det", &x.mk(&a).det().s()?, &Arr::new(&[1], vec![c(0.0)]))
        });
    }
}
pub fn linalg_grad(cs: &mut Cases) {
    for eq in EQS {
        let os = ops(eq).iter().map(|s| opd(s)).collect();
        op(
            cs,
            true,
            format!("einsum/{}", eq),
            os,
            move |_, t| Tensor::einsum(eq, &t.iter().collect::<Vec<_>>()).s(),
            move |a| einsum(eq, &a.iter().collect::<Vec<_>>()),
        );
    }
    cs.add("einsum/same", |x| {
        let i = input(x, &[2, 2], Lay::T, -2.0, 2.0, true)?;
        let out = Tensor::einsum("ij,jk->ik", &[&i.t, &i.t]).s()?;
        grads(x, "aa", &[&i], &out, &mm(&i.a, &i.a))
    });
    for s in MATS {
        let s: &'static [usize] = s;
        let n = s[s.len() - 1];
        for l in LAYS {
            if l == Lay::Bc && (s.len() == 2 || n > 2) {
                continue;
            }
            cs.add(format!("det/{:?}/{:?}", s, l), move |x| {
                let i = input(x, s, l, -2.0, 2.0, true)?;
                regular(x, &i.a);
                let out = i.t.det().s()?;
                grads(x, "det", &[&i], &out, &single(s, dets(&i.a)))
            });
            cs.add(format!("trace/{:?}/{:?}", s, l), move |x| {
                let i = input(x, s, l, -2.0, 2.0, true)?;
                let out = i.t.trace().s()?;
                let tr = per(&i.a, |m| Arr::new(&[], vec![(0..n).map(|i| m.at(&[i, i])).sum()]));
                grads(x, "trace", &[&i], &out, &single(s, tr))
            });
            if n <= 2 {
                cs.add(format!("inv/{:?}/{:?}", s, l), move |x| {
                    let i = input(x, s, l, -2.0, 2.0, true)?;
                    regular(x, &i.a);
                    let out = i.t.inv().s()?;
                    grads(x, "inv", &[&i], &out, &per(&i.a, inv))
                });
            }
        }
    }
    for (sa, sb) in [(vec![2usize, 2], vec![2usize]), (vec![2, 2], vec![2, 2]), (vec![2, 2, 2], vec![2, 2])] {
        cs.add(format!("solve/{:?}{:?}", sa, sb), move |x| {
            let i = input(x, &sa, Lay::T, -2.0, 2.0, true)?;
            let j = input(x, &sb, Lay::Step, -2.0, 2.0, true)?;
            regular(x, &i.a);
            let out = i.t.solve(&j.t).s()?;
            let v = per(&i.a, inv);
            let w = if sb[..] == sa[..sa.len() - 1] {
                let mut col = sb.clone();
                col.push(1);
                bmm(&v, &j.a.reshape(&col)).reshape(&sb)
            } else {
                mm(&v, &j.a)
            };
            grads(x, "solve", &[&i, &j], &out, &w)
        });
    }
}
