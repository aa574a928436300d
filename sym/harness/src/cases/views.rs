//! P01: views and shape operations address exactly the documented elements
use super::util::*;
use crate::ir::*;

fn prog(x: &mut Cx, shape: &[usize], ops: &[V]) -> R {
    let (mut t, mut a) = x.tensor(shape);
    for v in ops {
        t = apply(&t, v).map_err(|e| format!("{:?} on {:?}: {}", ops, shape, e))?;
        a = reference(&a, v);
    }
    // what a user sees: reading it back, and feeding it to an operation
    let l = format!("{:?}{:?}", shape, ops).replace(' ', "");
    x.eq(&format!("read:{}", l), &t, &a)?;
    x.eq(&format!("use:{}", l), &t.mul_scalar(2.0f32).s()?, &a.scale(2.0))?;
    x.eq(&format!("contiguous:{}", l), &t.contiguous().s()?, &a)
}

pub fn cases(cs: &mut Cases) {
    // every single operation with every parameter on small shapes
    let shapes: Vec<Vec<usize>> = vec![vec![4], vec![1, 3], vec![2, 3], vec![2, 1, 3], vec![2, 3, 2], vec![1, 2, 1, 2], vec![5, 2]];
    for s in shapes {
        let n = s.len() as i32;
        let size: usize = s.iter().product();
        let s0 = s.clone();
        cs.add(format!("reshape{:?}", s), move |x| {
            for t in shapes_of(size) {
                prog(x, &s0, &[V::Reshape(t)])?;
            }
            prog(x, &s0, &[V::Flatten])
        });
        let s0 = s.clone();
        cs.add(format!("squeeze{:?}", s), move |x| {
            prog(x, &s0, &[V::Squeeze(vec![])])?;
            for d in -n..n {
                if s0[((d + n) % n) as usize] == 1 {
                    prog(x, &s0, &[V::Squeeze(vec![d])])?;
                }
            }
            for d in -n - 1..=n {
                prog(x, &s0, &[V::Unsqueeze(d)])?;
            }
            Ok(())
        });
        let s0 = s.clone();
        if n >= 2 {
            cs.add(format!("transpose{:?}", s), move |x| {
                for a in -n..n {
                    for b in -n..n {
                        prog(x, &s0, &[V::Transpose(a, b)])?;
                    }
                }
                let (t, a) = x.tensor(&s0);
                x.eq("t", &t.t().s()?, &a.t())
            });
        }
        let s0 = s.clone();
        cs.add(format!("slice{:?}", s), move |x| {
            for d in -n..n {
                let sz = s0[((d + n) % n) as usize] as i32;
                for a in -sz - 1..sz {
                    for e in (-sz..=sz + 1).map(Some).chain([None]) {
                        for st in 1..=3 {
                            let an = if a < 0 { a + sz } else { a }.clamp(0, sz);
                            let en = e.map(|e| if e < 0 { e + sz } else { e.min(sz) }).unwrap_or(sz);
                            if en > an {
                                prog(x, &s0, &[V::Slice(d, a, e, st)])?;
                            }
                        }
                    }
                }
            }
            Ok(())
        });
        let s0 = s.clone();
        cs.add(format!("broadcast{:?}", s), move |x| {
            let (a, o) = x.tensor(&s0);
            for k in 1..3usize {
                let mut t: Vec<usize> = s0.iter().map(|&d| if d == 1 { 3 } else { d }).collect();
                prog(x, &s0, &[V::Broadcast(t.clone())])?;
                t.insert(0, k);
                prog(x, &s0, &[V::Broadcast(t.clone())])?;
                prog(x, &s0, &[V::AddC, V::Broadcast(t.clone()), V::Transpose(0, -1)])?;
                let (like, _) = x.tensor(&t);
                x.eq("broadcast_like", &a.broadcast_like(&like).s()?, &reference(&o, &V::Broadcast(t)))?;
                let mut l = vec![k, 2];
                let bl = a.broadcast_left(&l).s()?;
                l.extend_from_slice(&s0);
                x.eq("broadcast_left", &bl, &reference(&o, &V::Broadcast(l)))?;
            }
            Ok(())
        });
        let s0 = s.clone();
        cs.add(format!("repeat{:?}", s), move |x| {
            for k in 0..s0.len() {
                let mut r = vec![1; s0.len()];
                prog(x, &s0, &[V::Repeat(r.clone())])?;
                r[k] = 2;
                prog(x, &s0, &[V::Repeat(r.clone())])?;
                r[0] = 3;
                prog(x, &s0, &[V::Repeat(r.clone())])?;
            }
            Ok(())
        });
    }
    cs.add("permute", |x| {
        for s in [vec![2, 3], vec![2, 3, 4], vec![2, 1, 3, 2]] {
            let n = s.len();
            let mut p: Vec<i32> = (0..n as i32).collect();
            perms(&mut p, 0, &mut |p| {
                prog(x, &s, &[V::Permute(p.to_vec())])?;
                prog(x, &s, &[V::Permute(p.iter().map(|d| d - n as i32).collect())])
            })?;
        }
        Ok(())
    });
    // compositions
    let n = if cs.thorough { 400 } else { 60 };
    for i in 0..n {
        cs.add(format!("chain{}", i), move |x| {
            let mut r = Rng(1000 + i as u64);
            for _ in 0..12 {
                let rank = r.below(4);
                let s: Vec<usize> = (0..rank).map(|_| r.below(4) + 1).collect();
                let len = 2 + r.below(4);
                let mut ops = vec![];
                let mut a = Arr::full(&s, c(0.0));
                for _ in 0..len {
                    if a.shape.is_empty() {
                        ops.push(V::Unsqueeze(if r.below(2) == 0 { 0 } else { -1 }));
                    } else if r.below(6) == 0 {
                        ops.push(if r.below(2) == 0 { V::Contig } else { V::AddC });
                    } else {
                        ops.push(random_view(&mut r, &a.shape));
                    }
                    a = reference(&a, ops.last().unwrap());
                    if a.d.len() > 96 {
                        break;
                    }
                }
                prog(x, &s, &ops)?;
            }
            Ok(())
        });
    }
    // negative steps reverse
    for s in [vec![4], vec![2, 5]] {
        cs.add(format!("slice_negative_step{:?}", s), move |x| {
            let d = s.len() as i32 - 1;
            let sz = s[d as usize] as i32;
            for (a, e, st) in [(sz - 1, None, -1), (sz - 1, Some(0), -1), (2, None, -2), (-1, Some(-3), -1), (sz - 1, Some(-sz - 1), -2)] {
                prog(x, &s, &[V::Slice(d, a, e, st)])?;
            }
            Ok(())
        });
    }
    // reading nested vectors back
    cs.add("to_vec_nd", |x| {
        let (t, a) = x.tensor(&[2, 2, 3]);
        let t2 = t.transpose(0, 2).s()?;
        let e2 = a.permute(&[2, 1, 0]);
        let v: Vec<E> = t2.to_vec3d::<f32>().s()?.concat().concat().into_iter().map(|v| E(v as f64)).collect();
        x.eq_e("to_vec3d", &v, &e2.d);
        let t1 = t.slice(0, 1, None, 1).s()?.reshape([2, 3]).s()?;
        let v: Vec<E> = t1.to_vec2d::<f32>().s()?.concat().into_iter().map(|v| E(v as f64)).collect();
        x.eq_e("to_vec2d", &v, &a.d[6..]);
        let v: Vec<E> = t.flatten().s()?.to_vec1d::<f32>().s()?.into_iter().map(|v| E(v as f64)).collect();
        x.eq_e("to_vec1d", &v, &a.d);
        let t4 = t.reshape([1, 2, 3, 2]).s()?;
        let v: Vec<E> = t4.to_vec4d::<f32>().s()?.concat().concat().concat().into_iter().map(|v| E(v as f64)).collect();
        x.eq_e("to_vec4d", &v, &a.d);
        let t5 = t.reshape([3, 1, 2, 2, 1]).s()?;
        let v: Vec<E> = t5.to_vec5d::<f32>().s()?.concat().concat().concat().concat().into_iter().map(|v| E(v as f64)).collect();
        x.eq_e("to_vec5d", &v, &a.d);
        let t6 = t.reshape([3, 1, 2, 1, 2, 1]).s()?;
        let v: Vec<E> = t6.to_vec6d::<f32>().s()?.concat().concat().concat().concat().concat().into_iter().map(|v| E(v as f64)).collect();
        x.eq_e("to_vec6d", &v, &a.d);
        Ok(())
    });
}
fn perms(p: &mut Vec<i32>, k: usize, f: &mut dyn FnMut(&[i32]) -> R) -> R {
    if k == p.len() {
        return f(p);
    }
    for i in k..p.len() {
        p.swap(k, i);
        perms(p, k + 1, f)?;
        p.swap(k, i);
    }
    Ok(())
}
