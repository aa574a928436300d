//! P09 resizing (grad: the same under P19)
use super::util::*;
use crate::ir::*;

/// exact coordinate (numerator, denominator) in the input of output position `o`
fn coord(ct: &str, o: i64, n: i64, m: i64) -> (i64, i64) {
    if n == m {
        return (o, 1);
    }
    match ct {
        "asymmetric" => (o * n, m),
        "align_corners" => {
            if m == 1 {
                (0, 1)
            } else {
                (o * (n - 1), m - 1)
            }
        }
        "pytorch_half_pixel" if m == 1 => (0, 1),
        _ => ((2 * o + 1) * n - m, 2 * m),
    }
}
/// weights of the input positions along one dimension
fn weights(mode: &str, ct: &str, nm: &str, o: usize, n: usize, m: usize) -> Vec<(usize, f64)> {
    let (p, q) = coord(ct, o as i64, n as i64, m as i64);
    let fl = p.div_euclid(q);
    let frac = p - fl * q; // in 0..q
    let cl = |i: i64| i.clamp(0, n as i64 - 1) as usize;
    let t = frac as f64 / q as f64;
    match mode {
        "nearest" => {
            let up = match nm {
                "floor" => false,
                "ceil" => frac > 0,
                "round_prefer_floor" => 2 * frac > q,
                _ => 2 * frac >= q,
            };
            vec![(cl(fl + up as i64), 1.0)]
        }
        "linear" => vec![(cl(fl), 1.0 - t), (cl(fl + 1), t)],
        _ => {
            // the cubic convolution kernel with a = -1/2 at distance d
            let k = |d: f64| {
                let d = d.abs();
                if d <= 1.0 {
                    1.5 * d * d * d - 2.5 * d * d + 1.0
                } else {
                    -0.5 * d * d * d + 2.5 * d * d - 4.0 * d + 2.0
                }
            };
            (-1..=2).map(|j| (cl(fl + j), k(t - j as f64))).collect()
        }
    }
}
fn resized(a: &Arr, out: &[usize], mode: &str, ct: &str, nm: &str) -> Arr {
    let mut a = a.clone();
    for (d, &m) in out.iter().enumerate() {
        let d = d + 2;
        let n = a.shape[d];
        let mut sh = a.shape.clone();
        sh[d] = m;
        let w: Vec<Vec<(usize, f64)>> = (0..m)
            .map(|o| {
                let mut v = vec![0.0; n];
                for (i, k) in weights(mode, ct, nm, o, n, m) {
                    v[i] += k;
                }
                v.into_iter().enumerate().filter(|(_, k)| *k != 0.0).collect()
            })
            .collect();
        a = Arr::gen(&sh, |ix| {
            let mut jx = ix.to_vec();
            let mut t: Option<E> = None;
            for &(i, k) in &w[ix[d]] {
                jx[d] = i;
                let e = if k == 1.0 { a.at(&jx) } else { a.at(&jx) * c(k) };
                t = Some(match t {
                    Some(t) => t + e,
                    None => e,
                });
            }
            t.unwrap_or(c(0.0))
        });
    }
    a
}

const CTS: [&str; 4] = ["half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel"];
const NMS: [&str; 4] = ["floor", "ceil", "round_prefer_floor", "round_prefer_ceil"];

pub fn resizes(cs: &mut Cases, grad: bool) {
    let th = cs.thorough;
    let mut modes: Vec<(&'static str, &'static str, &'static str)> = vec![];
    for ct in CTS {
        for nm in NMS {
            modes.push(("nearest", ct, nm));
        }
        modes.push(("linear", ct, "floor"));
        modes.push(("cubic", ct, "floor"));
    }
    let mut q = 0usize;
    for (mi, (mode, ct, nm)) in modes.iter().cloned().enumerate() {
        for n in 1..=4usize {
            for m in 1..=6usize {
                q += 1;
                if (grad && q % 3 != 0 || m == 6 && n % 2 == 0) && !th {
                    continue;
                }
                // the other dimension takes a size pair of its own
                let (n2, m2) = (1 + (n + m + mi) % 3, 1 + (n * m + mi) % 4);
                let (b, ch) = if q % 2 == 0 { (2, 1) } else { (1, 2) };
                let sh = if q % 4 < 2 { vec![b, ch, n, n2] } else { vec![b, ch, n2, n] };
                let out = if q % 4 < 2 { vec![m, m2] } else { vec![m2, m] };
                let o2 = out.clone();
                op(
                    cs,
                    grad,
                    format!("resize/{mode}/{ct}/{nm}/{sh:?}{out:?}"),
                    vec![opd(&sh)],
                    move |_, t| t[0].resize(&out, mode, ct, nm).s(),
                    move |a| resized(&a[0], &o2, mode, ct, nm),
                );
            }
        }
        // volumes
        for (k, (sh, out)) in [([1usize, 2, 2, 3, 1], [3usize, 2, 2]), ([2, 1, 1, 2, 2], [2, 3, 2]), ([1, 1, 3, 1, 2], [2, 2, 3]), ([1, 1, 2, 2, 3], [4, 1, 5])].into_iter().enumerate() {
            if (grad || k == 3) && (k + mi) % 4 != 0 && !th {
                continue;
            }
            op(
                cs,
                grad,
                format!("resize3/{mode}/{ct}/{nm}/{sh:?}{out:?}"),
                vec![opd(&sh)],
                move |_, t| t[0].resize(&out, mode, ct, nm).s(),
                move |a| resized(&a[0], &out, mode, ct, nm),
            );
        }
        // long rows: the source position must be exact, not just close
        if !grad && mode == "nearest" {
            for n in 2..=15usize {
                cs.add(format!("rows/{ct}/{nm}/{n}"), move |x| {
                    for m in (2..60).step_by(if th { 1 } else { 3 }).map(|m| m + n % 3) {
                        let i = input(x, &[1, 1, 1, n], Lay::Plain, -2.0, 2.0, false)?;
                        let t = i.t.resize(&[1, m], mode, ct, nm).s()?;
                        x.eq(&format!("row{m}"), &t, &resized(&i.a, &[1, m], mode, ct, nm))?;
                    }
                    Ok(())
                });
            }
        }
    }
    // the short forms
    for (sh, out) in [([1usize, 1, 2, 2], [4usize, 4]), ([2, 1, 3, 2], [2, 5]), ([1, 2, 4, 3], [2, 1])] {
        op(cs, grad, format!("resize_nearest/{sh:?}{out:?}"), vec![opd(&sh)], move |_, t| t[0].resize_nearest(&out).s(), move |a| resized(&a[0], &out, "nearest", "asymmetric", "floor"));
        op(cs, grad, format!("resize_bilinear/{sh:?}{out:?}"), vec![opd(&sh)], move |_, t| t[0].resize_bilinear(&out).s(), move |a| resized(&a[0], &out, "linear", "half_pixel", ""));
        op(cs, grad, format!("resize_bilinear_align/{sh:?}{out:?}"), vec![opd(&sh)], move |_, t| t[0].resize_bilinear_align_corners(&out).s(), move |a| resized(&a[0], &out, "linear", "align_corners", ""));
        op(cs, grad, format!("resize_bicubic/{sh:?}{out:?}"), vec![opd(&sh)], move |_, t| t[0].resize_bicubic(&out).s(), move |a| resized(&a[0], &out, "cubic", "half_pixel", ""));
    }
}
