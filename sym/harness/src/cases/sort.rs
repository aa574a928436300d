//! P11 topk, unique, nonzero, compress (grad: topk under P19)
use super::util::*;
use crate::ir::*;

fn all(v: impl IntoIterator<Item = B>) -> B {
    v.into_iter().fold(B::K(true), |a, b| a.and(b))
}
fn dimv(d: usize, n: usize, neg: bool) -> i32 {
    if neg {
        d as i32 - n as i32
    } else {
        d as i32
    }
}

pub fn topks(cs: &mut Cases, grad: bool) {
    let mut no = 0usize;
    for (sh, dims) in [
        (vec![1usize], vec![0usize]),
        (vec![3], vec![0]),
        (vec![4], vec![0]),
        (vec![2, 3], vec![0, 1]),
        (vec![3, 1], vec![0, 1]),
        (vec![2, 2, 2], vec![0, 1, 2]),
        (vec![1, 3, 2], vec![1, 2]),
        (vec![5], vec![0]),
    ] {
        for d in dims {
            for k in 0..=sh[d] {
                for (q, l) in LAYS.into_iter().enumerate() {
                    for m in 0..4usize {
                        no += 1;
                        let (largest, sorted) = (m & 1 == 0, m & 2 == 0);
                        if !cs.thorough && (grad && (no % 3 != 0 || sh[0] > 3) || !grad && (m + q + k) % 2 == 1 && k > 0 && q > 0) {
                            continue;
                        }
                        if sh.iter().product::<usize>() > 4 && (q + m) % 5 != 0 && !cs.thorough {
                            continue;
                        }
                        if grad && k == 0 {
                            continue;
                        }
                        let sh = sh.clone();
                        let neg = no % 2 == 0;
                        let dbl = no % 4 == 1;
                        cs.add(format!("topk/{sh:?}d{d}k{k}{l:?}{}{}{}", if largest { "max" } else { "min" }, if sorted { "s" } else { "u" }, if dbl { "d" } else { "" }), move |x| {
                            x.f64 = dbl;
                            let n = sh.len();
                            let i = input(x, &sh, l, -2.0, 2.0, grad)?;
                            let (v, ix) = i.t.topk(k, dimv(d, n, neg), largest, sorted).s()?;
                            let mut os = sh.clone();
                            os[d] = k;
                            let got = from_t(&v)?;
                            let idx = from_t(&ix)?;
                            if got.shape != os || idx.shape != os {
                                x.fail("topk", &format!("shapes {:?} {:?}, expected {:?}", got.shape, idx.shape, os));
                                return Ok(());
                            }
                            if k == 0 {
                                x.check("topk:empty", true, "");
                                return Ok(());
                            }
                            for e in &idx.d {
                                if !(e.0 >= 0.0 && e.0 < sh[d] as f64) {
                                    x.fail("topk", &format!("index {}", e.0));
                                    return Ok(());
                                }
                            }
                            let pick = Arr::gen(&os, |o| {
                                let mut j = o.to_vec();
                                j[d] = idx.at(o).0 as usize;
                                i.a.at(&j)
                            });
                            if grad {
                                drop(ix);
                                return grads(x, "topk", &[&i], &v, &pick);
                            }
                            x.eq_e("topk:values", &got.d, &pick.d);
                            // every row: distinct positions, ordered, and nothing outside beats anything inside
                            let mut rows = sh.clone();
                            rows[d] = 1;
                            let mut ok = B::K(true);
                            for r in indices(&rows) {
                                let at = |a: &Arr, p: usize| {
                                    let mut j = r.clone();
                                    j[d] = p;
                                    a.at(&j)
                                };
                                let sel: Vec<usize> = (0..k).map(|p| at(&idx, p).0 as usize).collect();
                                let mut u = sel.clone();
                                u.sort();
                                u.dedup();
                                if u.len() != k {
                                    x.fail("topk", &format!("positions {:?}", sel));
                                    return Ok(());
                                }
                                let ge = |a: E, b: E| if largest { a.ge(b) } else { a.le(b) };
                                for &s in &sel {
                                    for o in 0..sh[d] {
                                        if !sel.contains(&o) {
                                            ok = ok.and(ge(at(&i.a, s), at(&i.a, o)));
                                        }
                                    }
                                }
                                if sorted {
                                    for w in sel.windows(2) {
                                        ok = ok.and(ge(at(&i.a, w[0]), at(&i.a, w[1])));
                                    }
                                }
                            }
                            x.assert("topk:order", ok);
                            Ok(())
                        });
                    }
                }
            }
        }
    }
}

pub fn selections(cs: &mut Cases) {
    topks(cs, false);
    for sh in [vec![1usize], vec![3], vec![4], vec![2, 2], vec![1, 3], vec![2, 1, 2]] {
        for (q, l) in LAYS.into_iter().enumerate() {
            let s1 = sh.clone();
            cs.add(format!("unique/{sh:?}{l:?}"), move |x| {
                x.f64 = q % 2 == 1;
                let (t, a) = laid(x, &s1, l, -2.0, 2.0)?;
                let (v, inv, cnt) = t.unique().s()?;
                let (v, inv, cnt) = (from_t(&v)?, from_t(&inv)?, from_t(&cnt)?);
                let m = v.d.len();
                let ok = v.shape == vec![m]
                    && cnt.shape == vec![m]
                    && inv.shape == vec![a.d.len()]
                    && inv.d.iter().all(|e| e.0 >= 0.0 && e.0 < m as f64)
                    && (0..m).all(|p| inv.d.iter().filter(|e| e.0 as usize == p).count() as f64 == cnt.d[p].0 && cnt.d[p].0 >= 1.0);
                x.check("unique:counts", ok, format!("inverse {:?} counts {:?} of {} values", inv.d, cnt.d, m));
                if ok {
                    let back: Vec<E> = inv.d.iter().map(|e| v.d[e.0 as usize]).collect();
                    x.eq_e("unique:inverse", &back, &a.d);
                    x.assert("unique:order", all(v.d.windows(2).map(|w| w[0].lt(w[1]))));
                }
                Ok(())
            });
            let s1 = sh.clone();
            cs.add(format!("nonzero/{sh:?}{l:?}"), move |x| {
                x.f64 = q % 2 == 0;
                let (t, a) = laid(x, &s1, l, -2.0, 2.0)?;
                let g = from_t(&t.nonzero().s()?)?;
                if g.shape.len() != 2 || g.shape[1] != s1.len() {
                    x.fail("nonzero", &format!("shape {:?}", g.shape));
                    return Ok(());
                }
                let rows: Vec<Vec<usize>> = (0..g.shape[0]).map(|r| (0..s1.len()).map(|k| g.at(&[r, k]).0 as usize).collect()).collect();
                x.check("nonzero:order", rows.windows(2).all(|w| w[0] < w[1]) && rows.iter().all(|r| r.iter().zip(&s1).all(|(i, n)| i < n)), format!("rows {:?}", rows));
                let b = all(indices(&s1).into_iter().map(|ix| a.at(&ix).eq(c(0.0)).iff(!rows.contains(&ix))));
                x.assert("nonzero", b);
                Ok(())
            });
        }
    }
    // compress: the condition is itself symbolic, in every layout
    for sh in [vec![3usize], vec![2, 2], vec![3, 2], vec![2, 1, 3]] {
        let nd = sh.len() as i32;
        let axes: Vec<Option<i32>> = (-nd..nd).map(Some).chain([None]).collect();
        for ax in axes {
            for (q, l) in LAYS.into_iter().enumerate() {
                for (p, cl) in LAYS.into_iter().enumerate() {
                    if cl == Lay::T || (q + 2 * p) % 4 != 0 && sh.len() > 1 && !cs.thorough {
                        continue;
                    }
                    // the condition of a strided view forks on the elements between, too
                    if cl == Lay::Step && ax.is_none() && sh.iter().product::<usize>() > 4 {
                        continue;
                    }
                    let s = sh.clone();
                    cs.add(format!("compress/{sh:?}{ax:?}{l:?}{cl:?}"), move |x| {
                        let (t, a) = laid(x, &s, l, -2.0, 2.0)?;
                        let axis = ax.map(|v| if v < 0 { (v + nd) as usize } else { v as usize });
                        let n = axis.map(|k| s[k]).unwrap_or(a.d.len());
                        let i = input(x, &[n], cl, -2.0, 2.0, false)?;
                        // the comparison copies, so the view is taken of the boolean tensor
                        let b0 = i.leaf.gt_scalar(0.5f32).s()?;
                        let b = match cl {
                            Lay::Step => b0.slice(0, 1, None, 2).s()?,
                            Lay::Off => b0.slice(0, 1, Some(1 + n as i32), 1).s()?,
                            Lay::Bc => b0.broadcast(&[n]).s()?,
                            _ => b0,
                        };
                        let got = from_t(&t.compress(&b, ax).s()?)?;
                        let set: Vec<bool> = from_t(&b)?.d.iter().map(|e| e.0 != 0.0).collect();
                        x.assert("compress:condition", all(i.a.d.iter().zip(&set).map(|(e, &v)| c(0.5).lt(*e).iff(v))));
                        let keep: Vec<usize> = (0..n).filter(|&k| set[k]).collect();
                        let want = match axis {
                            None => Arr::new(&[keep.len()], keep.iter().map(|&k| a.d[k]).collect()),
                            Some(d) => {
                                let mut os = s.clone();
                                os[d] = keep.len();
                                Arr::gen(&os, |ix| {
                                    let mut j = ix.to_vec();
                                    j[d] = keep[ix[d]];
                                    a.at(&j)
                                })
                            }
                        };
                        if got.shape != want.shape {
                            x.fail("compress", &format!("shape {:?}, expected {:?}", got.shape, want.shape));
                            return Ok(());
                        }
                        x.eq_e("compress", &got.d, &want.d);
                        Ok(())
                    });
                }
            }
        }
    }
}
