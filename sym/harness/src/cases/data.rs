//! P26 data loading: batches of symbolic samples, each exactly once, data and targets together
use super::util::*;
use crate::ir::*;
use hodu_core::{error::HoduResult, tensor::Tensor};
use hodu_datasets::data::{batch::*, dataloader::*, dataset::*};

#[derive(Clone)]
struct Src {
    data: Tensor,
    labels: Option<Tensor>,
    both: bool,
}
// the harness's own dataset: items of several tensors
impl Dataset for Src {
    fn len(&self) -> usize {
        self.data.shape()[0]
    }
    fn get(&self, index: usize) -> HoduResult<DataItem> {
        let t = TensorDataset::from_tensors(self.data.clone(), self.labels.clone().unwrap());
        match Dataset::get(&t, index)? {
            DataItem::Pair(d, l) if self.both => Ok(DataItem::multiple(vec![d, l])),
            i => Ok(i),
        }
    }
}
fn row(a: &Arr, k: usize) -> Arr {
    Arr::gen(&a.shape[1..], |ix| {
        let mut i = vec![k];
        i.extend(ix);
        a.at(&i)
    })
}
fn rows(a: &Arr, ks: &[usize]) -> Arr {
    let mut s = a.shape.clone();
    s[0] = ks.len();
    Arr::gen(&s, |ix| {
        let mut i = ix.to_vec();
        i[0] = ks[ix[0]];
        a.at(&i)
    })
}
fn same(a: &Arr, b: &Arr) -> bool {
    a.shape == b.shape && a.d.iter().zip(&b.d).all(|(p, q)| p.id() == q.id())
}
/// the samples in a batch, recognised by their data
fn which(x: &mut Cx, label: &str, got: &Tensor, data: &Arr) -> Result<Vec<usize>, String> {
    let g = from_t(got)?;
    let mut s = data.shape.clone();
    s[0] = g.shape[0];
    x.check(label, g.shape == s, format!("batch of shape {:?}", g.shape));
    if g.shape != s {
        return Err(format!("{label}: batch of shape {:?}", g.shape));
    }
    let mut v = vec![];
    for k in 0..s[0] {
        let r = row(&g, k);
        match (0..data.shape[0]).find(|&j| same(&r, &row(data, j))) {
            Some(j) => v.push(j),
            None => return Err(format!("{label}: row {k} is none of the samples")),
        }
    }
    Ok(v)
}
fn parts(b: Batch) -> Vec<Tensor> {
    match b {
        Batch::Single(t) => vec![t],
        Batch::Pair(a, b) => vec![a, b],
        Batch::Multiple(v) => v,
    }
}
/// two epochs of a loader over `d`, whose samples are those of `all` at `ix`
fn epochs<D: Dataset>(x: &mut Cx, d: D, all: &[Arr], ix: &[usize], batch: usize, drop: bool, seed: Option<u64>) -> R {
    let n = ix.len();
    x.check("length", d.len() == n, format!("{} instead of {n}", d.len()));
    let mut b = DataLoader::builder(d).batch_size(batch).drop_last(drop);
    if let Some(s) = seed {
        b = b.shuffle(true).seed(s);
    }
    let mut l = b.build();
    for ep in 0..2 {
        let mut seen = vec![];
        let want = if drop { n / batch } else { n.div_ceil(batch) };
        let mut count = 0;
        for b in l.iter_batches() {
            let p = parts(b.s()?);
            let lab = format!("epoch{ep}.batch{count}");
            x.check(&lab, p.len() == all.len(), "number of parts");
            let ks = which(x, &lab, &p[0], &all[0])?;
            x.check(&lab, ks.len() == batch || (!drop && count + 1 == want && ks.len() == n - count * batch), format!("{} samples", ks.len()));
            for (t, a) in p.iter().zip(all) {
                x.eq(&lab, t, &rows(a, &ks))?;
            }
            seen.extend(ks);
            count += 1;
        }
        x.check("batches", count == want, format!("{count} instead of {want}"));
        if seed.is_none() {
            x.check("order", seen[..] == ix[..seen.len()], format!("{seen:?} instead of {ix:?}"));
        } else {
            // a rearrangement of the samples, each as often as it occurs
            let mut left = ix.to_vec();
            for s in &seen {
                match left.iter().position(|v| v == s) {
                    Some(p) => {
                        left.remove(p);
                    },
                    None => x.fail("once", &format!("sample {s} too often: {seen:?}")),
                }
            }
            x.check("complete", left.len() == if drop { n % batch } else { 0 }, format!("{left:?} left out"));
        }
        l.reset();
    }
    Ok(())
}

pub fn loading(cs: &mut Cases) {
    for n in 1..=if cs.thorough { 6 } else { 4 } {
        for batch in 1..=n + 1 {
            for drop in [false, true] {
                for seed in [None, Some(1u64), Some(77)] {
                    for item in ["single", "pair", "multi"] {
                        for l in &LAYS[..4] {
                            let l = *l;
                            if !cs.thorough && l != LAYS[0] && (n + batch) % 2 == 1 {
                                continue;
                            }
                            let shape: &[usize] = if batch % 2 == 0 { &[n, 2] } else { &[n, 2, 3] };
                            let shape = shape.to_vec();
                            cs.add(format!("loader/{n}by{batch}/drop{drop}/{seed:?}/{item}/{l:?}"), move |x| {
                                let (t, a) = laid(x, &shape, l, -2.0, 2.0)?;
                                let (u, b) = laid(x, &[n], l, -2.0, 2.0)?;
                                let ix: Vec<usize> = (0..n).collect();
                                match item {
                                    "single" => epochs(x, TensorDataset::from_tensor(t), &[a], &ix, batch, drop, seed),
                                    "pair" => epochs(x, TensorDataset::from_tensors(t, u), &[a, b], &ix, batch, drop, seed),
                                    _ => epochs(x, Src { data: t, labels: Some(u), both: true }, &[a, b], &ix, batch, drop, seed),
                                }
                            });
                        }
                    }
                }
            }
        }
    }
    for (n, ix) in [(4, vec![2, 0, 3]), (3, vec![1, 1, 2, 0, 0]), (5, vec![4]), (3, vec![2, 1, 0])] {
        for batch in 1..=3 {
            for seed in [None, Some(5u64)] {
                let ix = ix.clone();
                cs.add(format!("subset/{n}/{ix:?}/{batch}/{seed:?}").replace(' ', ""), move |x| {
                    let ((t, a), (u, b)) = (x.tensor(&[n, 2]), x.tensor(&[n, 1]));
                    epochs(x, Subset::new(TensorDataset::from_tensors(t, u), ix.clone()), &[a, b], &ix, batch, false, seed)
                });
            }
        }
    }
    for ns in [vec![2usize, 3], vec![1, 1, 2], vec![3], vec![2, 1, 1, 1]] {
        for batch in 1..=3 {
            for seed in [None, Some(9u64)] {
                let ns = ns.clone();
                cs.add(format!("concat/{ns:?}/{batch}/{seed:?}").replace(' ', ""), move |x| {
                    let mut ds = vec![];
                    let (mut da, mut db) = (vec![], vec![]);
                    for &n in &ns {
                        let ((t, a), (u, b)) = (x.tensor(&[n, 2]), x.tensor(&[n]));
                        ds.push(TensorDataset::from_tensors(t, u));
                        da.extend(a.d);
                        db.extend(b.d);
                    }
                    let n = db.len();
                    epochs(x, ConcatDataset::new(ds), &[Arr::new(&[n, 2], da), Arr::new(&[n], db)], &(0..n).collect::<Vec<_>>(), batch, false, seed)
                });
            }
        }
    }
    for n in 1..=6usize {
        for (f, k) in [(0.0f32, 0), (0.5, n / 2), (0.75, n * 3 / 4), (1.0, n)] {
            for seed in [None, Some(3u64), Some(40)] {
                cs.add(format!("split/{n}/{f}/{seed:?}"), move |x| {
                    let ((t, a), (u, b)) = (x.tensor(&[n, 2]), x.tensor(&[n]));
                    let (p, q) = random_split(Src { data: t, labels: Some(u), both: false }, f, seed);
                    x.check("sizes", Dataset::len(&p) == k && Dataset::len(&q) == n - k, format!("{} and {}", Dataset::len(&p), Dataset::len(&q)));
                    let mut seen = vec![];
                    for s in [&p, &q] {
                        for i in 0..Dataset::len(s) {
                            match Dataset::get(s, i).s()? {
                                DataItem::Pair(d, l) => {
                                    let da = from_t(&d)?;
                                    let j = (0..n).find(|&j| same(&da, &row(&a, j))).ok_or("no such sample")?;
                                    x.eq("data", &d, &row(&a, j))?;
                                    x.eq("label", &l, &row(&b, j))?;
                                    seen.push(j);
                                },
                                _ => x.fail("item", "not a pair"),
                            }
                        }
                    }
                    seen.sort();
                    x.check("partition", seen == (0..n).collect::<Vec<_>>(), format!("{seen:?}"));
                    Ok(())
                });
            }
        }
    }
}
