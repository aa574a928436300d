//! the data loader: what an epoch visits, in what groups
#[cfg(not(kani))]
use crate::kani;
use hodu_core::error::{HoduError, HoduResult};
use hodu_datasets::data::{batch::*, dataloader::*, dataset::*, sampler::*};

const CAP: usize = 16;
/// what the loader asked the dataset for, and the size of each batch it collated
static mut SEEN: [usize; CAP] = [0; CAP];
static mut N: usize = 0;
static mut SIZES: [usize; CAP] = [0; CAP];
static mut B: usize = 0;

fn forget_all() {
    unsafe {
        N = 0;
        B = 0;
    }
}
fn seen(k: usize) -> usize {
    unsafe { SEEN[k] }
}
fn count() -> usize {
    unsafe { N }
}
fn batches() -> usize {
    unsafe { B }
}
fn size(k: usize) -> usize {
    unsafe { SIZES[k] }
}

#[derive(Clone)]
struct Log(usize, usize);
impl Dataset for Log {
    fn len(&self) -> usize {
        self.0
    }
    fn get(&self, index: usize) -> HoduResult<DataItem> {
        assert!(index < self.0);
        unsafe {
            SEEN[N] = self.1 + index;
            N += 1;
        }
        Ok(DataItem::Multiple(Vec::new()))
    }
}
fn collate(items: Vec<DataItem>) -> HoduResult<Batch> {
    unsafe {
        SIZES[B] = items.len();
        B += 1;
    }
    Ok(Batch::Multiple(Vec::new()))
}

fn subset<const M: usize>() {
    let (n, i): (usize, usize) = (kani::any(), kani::any());
    kani::assume(n >= 1 && n <= M);
    let mut ix = Vec::new();
    for _ in 0..M {
        let v: usize = kani::any();
        kani::assume(v < n);
        ix.push(v);
    }
    let want = if i < M { ix[i] } else { 0 };
    forget_all();
    let s = Subset::new(Log(n, 0), ix);
    assert!(Dataset::len(&s) == M);
    match Dataset::get(&s, i) {
        Ok(_) => assert!(i < M && count() == 1 && seen(0) == want),
        Err(_) => assert!(i >= M && count() == 0),
    }
}
fn concat<const M: usize>() {
    let (a, b, c, i): (usize, usize, usize, usize) = (kani::any(), kani::any(), kani::any(), kani::any());
    kani::assume(a <= M && b <= M && c <= M);
    forget_all();
    // element k of the concatenation is marked k
    let s = ConcatDataset::new(vec![Log(a, 0), Log(b, a), Log(c, a + b)]);
    assert!(Dataset::len(&s) == a + b + c && Dataset::is_empty(&s) == (a + b + c == 0));
    match Dataset::get(&s, i) {
        Ok(_) => assert!(i < a + b + c && count() == 1 && seen(0) == i),
        Err(_) => assert!(i >= a + b + c && count() == 0),
    }
}
fn visits(s: &dyn Sampler, n: usize) {
    forget_all();
    assert!(s.len() == n && s.is_empty() == (n == 0));
    for i in s.iter() {
        unsafe {
            SEEN[N] = i;
            N += 1;
        }
    }
    assert!(count() == n);
}
fn sequential<const M: usize>() {
    let n: usize = kani::any();
    kani::assume(n <= M);
    visits(&SequentialSampler::new(n), n);
    for k in 0..n {
        assert!(seen(k) == k);
    }
}
fn given<const M: usize>() {
    let mut v = Vec::new();
    let mut w = [0; M];
    for k in 0..M {
        w[k] = kani::any();
        v.push(w[k]);
    }
    visits(&SubsetSampler::new(v), M);
    for k in 0..M {
        assert!(seen(k) == w[k]);
    }
}

crate::harnesses! {
    //@ 3 indices into up to 4 items, any position | Subset::get Subset::len
    6 subset3 { subset::<3>() }
    //@ three datasets of up to 3 items, any position | ConcatDataset::get ConcatDataset::len
    6 concat3 { concat::<3>() }
    //@ up to 5 items | SequentialSampler::iter
    7 sampler_sequential { sequential::<5>() }
    //@ any 4 indices | SubsetSampler::iter
    6 sampler_subset { given::<4>() }
}
