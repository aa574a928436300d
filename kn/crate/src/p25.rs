//! shapes and layouts: the row-major address algebra
#[cfg(not(kani))]
use crate::kani;
use hodu_core::types::*;

/// any value up to `m`
fn le(m: usize) -> usize {
    let v: usize = kani::any();
    kani::assume(v <= m);
    v
}
fn dims<const R: usize>(m: usize) -> [usize; R] {
    let mut d = [0; R];
    for x in d.iter_mut() {
        *x = le(m);
    }
    d
}
/// any layout of rank R: extents up to m, strides up to 16, offset up to 64
fn layout<const R: usize>(m: usize) -> ([usize; R], [usize; R], usize, Layout) {
    let d = dims::<R>(m);
    let s = dims::<R>(16);
    let o = le(64);
    let mut l = Layout::new(Shape::new(&d), s.to_vec());
    l.set_offset(o);
    (d, s, o, l)
}
/// any index inside the extents
fn index<const R: usize>(d: &[usize; R]) -> [usize; R] {
    let mut i = [0; R];
    for k in 0..R {
        i[k] = kani::any();
        kani::assume(i[k] < d[k]);
    }
    i
}
fn addr(l: &Layout, ix: &[usize]) -> usize {
    assert!(l.strides().len() == ix.len() && l.ndim() == ix.len());
    let mut a = l.offset();
    for k in 0..ix.len() {
        a += ix[k] * l.strides()[k];
    }
    a
}
fn linear<const R: usize>(d: &[usize; R], ix: &[usize; R]) -> usize {
    let mut a = 0;
    for k in 0..R {
        a = a * d[k] + ix[k];
    }
    a
}
fn shape_is(l: &Layout, d: &[usize]) {
    assert!(l.ndim() == d.len());
    for k in 0..d.len() {
        assert!(l.shape().dims()[k] == d[k]);
    }
}
fn axis(n: i32, a: i32) -> Option<usize> {
    if a >= -n && a < n {
        Some(if a < 0 { a + n } else { a } as usize)
    } else {
        None
    }
}

fn row_major<const R: usize>() {
    let d = dims::<R>(4);
    let l = Layout::from_shape(&Shape::new(&d));
    shape_is(&l, &d);
    assert!(l.is_contiguous() && l.offset() == 0);
    let mut n = 1;
    for k in 0..R {
        n *= d[k];
    }
    assert!(l.size() == n && l.shape().size() == n && l.buffer_size() == n);
    let ix = index(&d);
    assert!(addr(&l, &ix) == linear(&d, &ix));
}

/// a layout that calls itself contiguous is addressed row-major
fn contiguous<const R: usize>() {
    let (d, _, o, l) = layout::<R>(4);
    if l.is_contiguous() {
        let ix = index(&d);
        assert!(addr(&l, &ix) == o + linear(&d, &ix));
    }
}

fn transposed<const R: usize>() {
    let (d, _, _, l) = layout::<R>(3);
    let (a, b): (i32, i32) = (kani::any(), kani::any());
    match (l.transpose(a, b), axis(R as i32, a), axis(R as i32, b)) {
        (Ok(t), Some(a), Some(b)) => {
            let mut e = d;
            e.swap(a, b);
            shape_is(&t, &e);
            let mut ix = index(&d);
            let p = addr(&l, &ix);
            ix.swap(a, b);
            assert!(addr(&t, &ix) == p);
        },
        (Err(_), None, _) | (Err(_), _, None) => (),
        _ => panic!("transpose"),
    }
}

fn permuted<const R: usize>() {
    let (d, _, _, l) = layout::<R>(3);
    let mut ax = [0i32; R];
    let mut to = [0usize; R];
    let mut ok = true;
    for k in 0..R {
        ax[k] = kani::any();
        match axis(R as i32, ax[k]) {
            Some(v) => to[k] = v,
            None => ok = false,
        }
    }
    for i in 0..R {
        for j in 0..i {
            ok &= to[i] != to[j];
        }
    }
    match l.permute(&ax) {
        Ok(t) => {
            assert!(ok);
            let ix = index(&d);
            let mut e = [0; R];
            let mut jx = [0; R];
            for k in 0..R {
                e[k] = d[to[k]];
                jx[k] = ix[to[k]];
            }
            shape_is(&t, &e);
            assert!(addr(&t, &jx) == addr(&l, &ix));
        },
        Err(_) => assert!(!ok),
    }
}

fn sliced<const R: usize>() {
    let (d, _, _, l) = layout::<R>(4);
    let (a, start, end, step): (i32, i32, i32, i32) = (kani::any(), kani::any(), kani::any(), kani::any());
    let open: bool = kani::any();
    let r = l.slice(a, start, if open { None } else { Some(end) }, step);
    let Some(a) = axis(R as i32, a) else {
        assert!(r.is_err());
        return;
    };
    let n = d[a] as i64;
    let fix = |v: i32| (if v < 0 { v as i64 + n } else { v as i64 }).clamp(0, n);
    let (s, e) = (fix(start), if open { n } else { fix(end) });
    match r {
        Ok(t) => {
            assert!(step > 0 && s < e);
            let m = (e - s + step as i64 - 1) / step as i64;
            let mut f = d;
            f[a] = m as usize;
            shape_is(&t, &f);
            let ix = index(&f);
            let mut jx = ix;
            jx[a] = s as usize + ix[a] * step as usize;
            assert!(jx[a] < d[a]);
            assert!(addr(&t, &ix) == addr(&l, &jx));
        },
        Err(_) => assert!(step <= 0 || s >= e),
    }
}

/// same elements in the same order
fn same_order<const R: usize, const Q: usize>(d: &[usize; R], l: &Layout, e: &[usize; Q], t: &Layout) {
    let (ix, jx) = (index(d), index(e));
    kani::assume(linear(d, &ix) == linear(e, &jx));
    assert!(addr(l, &ix) == addr(t, &jx));
}
fn reshaped<const R: usize, const Q: usize>() {
    let (d, _, _, l) = layout::<R>(4);
    let e = dims::<Q>(4);
    let same = d.iter().product::<usize>() == e.iter().product::<usize>();
    match l.reshape(&Shape::new(&e)) {
        Ok(t) => {
            assert!(same);
            shape_is(&t, &e);
            same_order(&d, &l, &e, &t);
        },
        Err(_) => assert!(!same || !l.is_contiguous()),
    }
}
fn flat<const R: usize>() {
    let (d, _, _, l) = layout::<R>(4);
    match l.flatten() {
        Ok(t) => {
            let e = [d.iter().product::<usize>()];
            shape_is(&t, &e);
            same_order(&d, &l, &e, &t);
        },
        Err(_) => assert!(!l.is_contiguous()),
    }
}

fn squeezed<const R: usize, const N: usize>(d: [usize; R]) {
    let mut l = Layout::from_shape(&Shape::new(&d));
    l.set_offset(le(64));
    let mut ax = [0i32; N];
    let mut gone = [false; R];
    let mut ok = true;
    for k in 0..N {
        ax[k] = kani::any();
        match axis(R as i32, ax[k]) {
            Some(a) => {
                ok &= d[a] == 1;
                gone[a] = true;
            },
            None => ok = false,
        }
    }
    if N == 0 {
        for k in 0..R {
            gone[k] = d[k] == 1;
        }
    }
    match l.squeeze(&ax) {
        Ok(t) => {
            assert!(ok);
            let ix = index(&d);
            let mut a = t.offset();
            let mut j = 0;
            for k in 0..R {
                if !gone[k] {
                    assert!(j < t.ndim() && t.shape().dims()[j] == d[k]);
                    a += ix[k] * t.strides()[j];
                    j += 1;
                }
            }
            assert!(j == t.ndim());
            assert!(a == addr(&l, &ix));
        },
        // a dimension named twice may be refused
        Err(_) => assert!(!ok || !l.is_contiguous() || (N == 2 && axis(R as i32, ax[0]) == axis(R as i32, ax[N - 1]))),
    }
}

fn unsqueezed<const R: usize, const Q: usize>() {
    let (d, _, _, l) = layout::<R>(4);
    let a: i32 = kani::any();
    match (l.unsqueeze(a), axis(Q as i32, a)) {
        (Ok(t), Some(a)) => {
            let mut e = [1; Q];
            let ix = index(&d);
            let mut jx = [0; Q];
            for k in 0..R {
                let m = if k < a { k } else { k + 1 };
                e[m] = d[k];
                jx[m] = ix[k];
            }
            shape_is(&t, &e);
            assert!(addr(&t, &jx) == addr(&l, &ix));
        },
        (Err(_), None) => (),
        (Err(_), _) => assert!(!l.is_contiguous()),
        _ => panic!("unsqueeze"),
    }
}

/// broadcasting rule: (common shape, compatible)
fn rule<const R: usize, const Q: usize>(d: &[usize; R], e: &[usize; Q]) -> Option<[usize; 4]> {
    let n = R.max(Q);
    let mut o = [0; 4];
    for k in 0..n {
        let a = if k + R >= n { d[k + R - n] } else { 1 };
        let b = if k + Q >= n { e[k + Q - n] } else { 1 };
        o[k] = if a == 1 {
            b
        } else if b == 1 || a == b {
            a
        } else {
            return None;
        };
    }
    Some(o)
}
fn broadcasted<const R: usize, const Q: usize>() {
    let (d, _, _, l) = layout::<R>(3);
    let e = dims::<Q>(3);
    let to = Shape::new(&e);
    let ok = R <= Q && rule(&d, &e).is_some_and(|o| (0..Q).all(|k| o[k] == e[k]));
    assert!(Shape::new(&d).can_broadcast_to(&to) == ok);
    match l.broadcast_to(&to) {
        Ok(t) => {
            assert!(ok);
            shape_is(&t, &e);
            let ix = index(&e);
            let mut jx = [0; R];
            for k in 0..R {
                jx[k] = if d[k] == 1 { 0 } else { ix[Q - R + k] };
            }
            assert!(addr(&t, &ix) == addr(&l, &jx));
        },
        Err(_) => assert!(!ok),
    }
}
fn common<const R: usize, const Q: usize>() {
    let (d, e) = (dims::<R>(3), dims::<Q>(3));
    let want = rule(&d, &e);
    match Shape::broadcast_shape(&Shape::new(&d), &Shape::new(&e)) {
        Some(s) => {
            assert!(s.ndim() == R.max(Q));
            let Some(w) = want else { panic!("incompatible shapes broadcast") };
            for k in 0..R.max(Q) {
                assert!(s.dims()[k] == w[k]);
            }
        },
        None => assert!(want.is_none()),
    }
}

fn axes<const R: usize>() {
    let d = dims::<R>(1 << 40);
    let a: i32 = kani::any();
    let s = Shape::new(&d);
    let l = Layout::new(s.clone(), vec![1; R]);
    assert!(s.normalize_axis(a) == axis(R as i32, a));
    let w = axis(R as i32, a).map(|k| d[k]);
    assert!(s.dim_size(a) == w && l.dim_size(a) == w);
    assert!(SymbolicShape::from_concrete(&s).dim_size(a) == w);
}

// symbolic shapes and layouts
fn dim(c: usize, kind: u8, id: DynamicDimId) -> Dim {
    match kind {
        0 => Dim::concrete(c),
        1 => Dim::dynamic_with_id(id, Some(c)),
        _ => Dim::dynamic_with_id(id, None),
    }
}
fn symbolic<const R: usize>(kinds: [u8; R]) {
    let d = dims::<R>(4);
    let id = DynamicDimId::new();
    let mut v = Vec::new();
    for k in 0..R {
        v.push(dim(d[k], kinds[k], id));
    }
    let concrete = kinds.iter().all(|&k| k == 0);
    let bounded = kinds.iter().all(|&k| k < 2);
    let n: usize = d.iter().product();
    let s = SymbolicShape::new(v);
    assert!(s.ndim() == R && s.is_fully_concrete() == concrete && s.is_dynamic() != concrete);
    assert!(s.size() == if concrete { Some(n) } else { None });
    assert!(s.max_size() == if bounded { Some(n) } else { None });
    let same = |t: &Option<Shape>, on: bool| match t {
        Some(t) => on && t.ndim() == R && (0..R).all(|k| t.dims()[k] == d[k]),
        None => !on,
    };
    assert!(same(&s.to_concrete(), concrete));
    assert!(same(&s.to_max_shape(), bounded));
    match SymbolicLayout::from_shape(&s) {
        Some(mut l) => {
            assert!(bounded && l.ndim() == R && l.is_fully_concrete() == concrete);
            let o = le(64);
            l.set_offset(o);
            assert!(l.offset() == o && l.size() == s.size() && l.max_size() == Some(n) && l.buffer_size() == Some(n + o));
            let ix = index(&d);
            let m = l.to_max_layout().unwrap();
            shape_is(&m, &d);
            assert!(addr(&m, &ix) == o + linear(&d, &ix));
            match l.to_concrete() {
                Some(c) => {
                    assert!(concrete);
                    shape_is(&c, &d);
                    assert!(addr(&c, &ix) == o + linear(&d, &ix));
                },
                None => assert!(!concrete),
            }
        },
        None => assert!(!bounded),
    }
}
fn round_trip<const R: usize>() {
    let (d, _, _, l) = layout::<R>(4);
    let s = SymbolicLayout::from_concrete(&l);
    let ix = index(&d);
    assert!(s.offset() == l.offset());
    let c = s.to_concrete().unwrap();
    shape_is(&c, &d);
    assert!(addr(&c, &ix) == addr(&l, &ix));
    let m = s.to_max_layout().unwrap();
    assert!(addr(&m, &ix) == addr(&l, &ix));
}
fn replaced<const R: usize>(k: usize) {
    let d = dims::<R>(4);
    let l = SymbolicLayout::from_shape(&SymbolicShape::concrete(&d)).unwrap();
    let n = le(4);
    match l.with_dim(k, Dim::dynamic_with_id(DynamicDimId::new(), Some(n))) {
        Some(t) => {
            assert!(k < R && t.is_dynamic());
            let mut e = d;
            e[k] = n;
            let ix = index(&e);
            let m = t.to_max_layout().unwrap();
            shape_is(&m, &e);
            assert!(addr(&m, &ix) == linear(&e, &ix));
        },
        None => assert!(k >= R),
    }
}

crate::harnesses! {
    //@ ranks 1; extents 0..4, any index | Layout::from_shape Shape::compute_strides Layout::is_contiguous Layout::size Layout::buffer_size
    6 row_major1 { row_major::<1>() }
    //@ ranks 2; extents 0..4, any index | Layout::from_shape Shape::compute_strides Layout::is_contiguous Layout::size Layout::buffer_size
    6 row_major2 { row_major::<2>() }
    //@ ranks 3; extents 0..4, any index | Layout::from_shape Shape::compute_strides Layout::is_contiguous Layout::size Layout::buffer_size
    6 row_major3 { row_major::<3>() }
    //@ ranks 4; extents 0..4, any index | Layout::from_shape Shape::compute_strides Layout::is_contiguous Layout::size Layout::buffer_size
    6 row_major4 { row_major::<4>() }
    //@ ranks 1; extents 0..4, strides 0..16, offset 0..64 | Layout::is_contiguous
    6 contiguous1 { contiguous::<1>() }
    //@ ranks 2; extents 0..4, strides 0..16, offset 0..64 | Layout::is_contiguous
    6 contiguous2 { contiguous::<2>() }
    //@ ranks 3; extents 0..4, strides 0..16, offset 0..64 | Layout::is_contiguous
    6 contiguous3 { contiguous::<3>() }
    //@ ranks 2; extents 0..3, strides 0..16, offset 0..64, every i32 axis pair | Layout::transpose Shape::normalize_axis
    6 transpose2 { transposed::<2>() }
    //@ ranks 3; extents 0..3, strides 0..16, offset 0..64, every i32 axis pair | Layout::transpose Shape::normalize_axis | thorough
    6 transpose3 { transposed::<3>() }
    //@ ranks 1; extents 0..3, strides 0..16, offset 0..64, every i32 axis | Layout::permute
    6 permute1 { permuted::<1>() }
    //@ ranks 2; extents 0..3, strides 0..16, offset 0..64, every i32 axis | Layout::permute
    6 permute2 { permuted::<2>() }
    //@ ranks 3; extents 0..3, strides 0..16, offset 0..64, every i32 axis | Layout::permute | thorough
    6 permute3 { permuted::<3>() }
    //@ ranks 1; extents 0..4, strides 0..16, offset 0..64, every i32 axis, start, end and step | Layout::slice
    6 slice1 { sliced::<1>() }
    //@ ranks 2; extents 0..4, strides 0..16, offset 0..64, every i32 axis, start, end and step | Layout::slice
    6 slice2 { sliced::<2>() }
    //@ ranks 3; extents 0..4, strides 0..16, offset 0..64, every i32 axis, start, end and step | Layout::slice | thorough
    6 slice3 { sliced::<3>() }
    //@ ranks 1 and 2; extents 0..4, strides 0..16, offset 0..64 | Layout::reshape Layout::is_contiguous
    6 reshape12 { reshaped::<1, 2>() }
    //@ ranks 2 and 1; extents 0..4, strides 0..16, offset 0..64 | Layout::reshape Layout::is_contiguous
    6 reshape21 { reshaped::<2, 1>() }
    //@ ranks 2 and 2; extents 0..4, strides 0..16, offset 0..64 | Layout::reshape Layout::is_contiguous
    6 reshape22 { reshaped::<2, 2>() }
    //@ ranks 2 and 3; extents 0..4, strides 0..16, offset 0..64 | Layout::reshape Layout::is_contiguous
    6 reshape23 { reshaped::<2, 3>() }
    //@ ranks 3 and 2; extents 0..4, strides 0..16, offset 0..64 | Layout::reshape Layout::is_contiguous | thorough
    6 reshape32 { reshaped::<3, 2>() }
    //@ ranks 1; extents 0..4, strides 0..16, offset 0..64 | Layout::flatten
    6 flatten1 { flat::<1>() }
    //@ ranks 2; extents 0..4, strides 0..16, offset 0..64 | Layout::flatten
    6 flatten2 { flat::<2>() }
    //@ ranks 3; extents 0..4, strides 0..16, offset 0..64 | Layout::flatten
    6 flatten3 { flat::<3>() }
    //@ extents 1,3; offset 0..64 | Layout::squeeze
    6 [z3] squeeze_all2 { squeezed::<2, 0>([1, 3]) }
    //@ extents 1,3,1; offset 0..64 | Layout::squeeze
    6 [z3] squeeze_all3 { squeezed::<3, 0>([1, 3, 1]) }
    //@ extents 2,1,0; offset 0..64 | Layout::squeeze
    6 [z3] squeeze_all0 { squeezed::<3, 0>([2, 1, 0]) }
    //@ extent 1; offset 0..64; every i32 axis | Layout::squeeze | thorough
    6 [z3] squeeze_one1 { squeezed::<1, 1>([1]) }
    //@ extents 2,1; offset 0..64; every i32 axis | Layout::squeeze | thorough
    6 [z3] squeeze_one2 { squeezed::<2, 1>([2, 1]) }
    //@ extents 2,1,3; offset 0..64; every i32 axis | Layout::squeeze | thorough
    6 [z3] squeeze_one3 { squeezed::<3, 1>([2, 1, 3]) }
    //@ extents 1,3,1; offset 0..64; every i32 axis pair | Layout::squeeze | thorough
    6 [z3] squeeze_two3 { squeezed::<3, 2>([1, 3, 1]) }
    //@ ranks 1; extents 0..4, strides 0..16, offset 0..64 | Layout::unsqueeze
    6 unsqueeze1 { unsqueezed::<1, 2>() }
    //@ ranks 2; extents 0..4, strides 0..16, offset 0..64 | Layout::unsqueeze
    6 unsqueeze2 { unsqueezed::<2, 3>() }
    //@ ranks 1 and 1; extents 0..3, strides 0..16, offset 0..64 | Layout::broadcast_to Shape::can_broadcast_to
    6 broadcast11 { broadcasted::<1, 1>() }
    //@ ranks 1 and 2; extents 0..3, strides 0..16, offset 0..64 | Layout::broadcast_to Shape::can_broadcast_to
    6 broadcast12 { broadcasted::<1, 2>() }
    //@ ranks 2 and 2; extents 0..3, strides 0..16, offset 0..64 | Layout::broadcast_to Shape::can_broadcast_to
    6 broadcast22 { broadcasted::<2, 2>() }
    //@ ranks 2 and 3; extents 0..3, strides 0..16, offset 0..64 | Layout::broadcast_to Shape::can_broadcast_to
    6 broadcast23 { broadcasted::<2, 3>() }
    //@ ranks 1 and 3; extents 0..3, strides 0..16, offset 0..64 | Layout::broadcast_to Shape::can_broadcast_to
    6 broadcast13 { broadcasted::<1, 3>() }
    //@ ranks 2 and 1; extents 0..3, strides 0..16, offset 0..64 | Layout::broadcast_to Shape::can_broadcast_to
    6 broadcast21 { broadcasted::<2, 1>() }
    //@ ranks 1 and 1; extents 0..3 | Shape::broadcast_shape
    6 broadcast_shape11 { common::<1, 1>() }
    //@ ranks 1 and 2; extents 0..3 | Shape::broadcast_shape
    6 broadcast_shape12 { common::<1, 2>() }
    //@ ranks 3 and 1; extents 0..3 | Shape::broadcast_shape
    6 broadcast_shape31 { common::<3, 1>() }
    //@ ranks 2 and 2; extents 0..3 | Shape::broadcast_shape
    6 broadcast_shape22 { common::<2, 2>() }
    //@ ranks 2 and 3; extents 0..3 | Shape::broadcast_shape
    6 broadcast_shape23 { common::<2, 3>() }
    //@ ranks 0 and 1; extents 0..3 | Shape::broadcast_shape
    6 broadcast_shape01 { common::<0, 2>() }
    //@ ranks 1; extents up to 2^40, every i32 axis | Shape::normalize_axis Shape::dim_size Layout::dim_size SymbolicShape::dim_size
    6 axes1 { axes::<1>() }
    //@ ranks 3; extents up to 2^40, every i32 axis | Shape::normalize_axis Shape::dim_size Layout::dim_size SymbolicShape::dim_size
    6 axes3 { axes::<3>() }
    //@ dimensions concrete; extents 0..4, offset 0..64 | SymbolicShape::* SymbolicLayout::from_shape SymbolicLayout::to_concrete SymbolicLayout::to_max_layout
    6 [z3] symbolic_c { symbolic::<1>([0]) }
    //@ dimensions bounded; extents 0..4, offset 0..64 | SymbolicShape::* SymbolicLayout::from_shape SymbolicLayout::to_concrete SymbolicLayout::to_max_layout
    6 [z3] symbolic_b { symbolic::<1>([1]) }
    //@ dimensions unbounded; extents 0..4, offset 0..64 | SymbolicShape::* SymbolicLayout::from_shape SymbolicLayout::to_concrete SymbolicLayout::to_max_layout
    6 [z3] symbolic_u { symbolic::<1>([2]) }
    //@ dimensions concrete, concrete; extents 0..4, offset 0..64 | SymbolicShape::* SymbolicLayout::from_shape SymbolicLayout::to_concrete SymbolicLayout::to_max_layout
    6 [z3] symbolic_cc { symbolic::<2>([0, 0]) }
    //@ dimensions concrete, bounded; extents 0..4, offset 0..64 | SymbolicShape::* SymbolicLayout::from_shape SymbolicLayout::to_concrete SymbolicLayout::to_max_layout | thorough
    6 [z3] symbolic_cb { symbolic::<2>([0, 1]) }
    //@ dimensions bounded, concrete; extents 0..4, offset 0..64 | SymbolicShape::* SymbolicLayout::from_shape SymbolicLayout::to_concrete SymbolicLayout::to_max_layout | thorough
    6 [z3] symbolic_bc { symbolic::<2>([1, 0]) }
    //@ dimensions bounded, bounded; extents 0..4, offset 0..64 | SymbolicShape::* SymbolicLayout::from_shape SymbolicLayout::to_concrete SymbolicLayout::to_max_layout
    6 [z3] symbolic_bb { symbolic::<2>([1, 1]) }
    //@ dimensions concrete, unbounded; extents 0..4, offset 0..64 | SymbolicShape::* SymbolicLayout::from_shape SymbolicLayout::to_concrete SymbolicLayout::to_max_layout
    6 [z3] symbolic_cu { symbolic::<2>([0, 2]) }
    //@ dimensions unbounded, concrete; extents 0..4, offset 0..64 | SymbolicShape::* SymbolicLayout::from_shape SymbolicLayout::to_concrete SymbolicLayout::to_max_layout
    6 [z3] symbolic_uc { symbolic::<2>([2, 0]) }
    //@ ranks 1; extents 0..4, strides 0..16, offset 0..64 | SymbolicLayout::from_concrete SymbolicLayout::to_concrete
    6 round_trip1 { round_trip::<1>() }
    //@ ranks 3; extents 0..4, strides 0..16, offset 0..64 | SymbolicLayout::from_concrete SymbolicLayout::to_concrete | thorough
    6 round_trip3 { round_trip::<3>() }
    //@ extents 0..4, position 0 | SymbolicLayout::with_dim | thorough
    6 [z3] with_dim0 { replaced::<2>(0) }
    //@ extents 0..4, position 1 | SymbolicLayout::with_dim | thorough
    6 [z3] with_dim1 { replaced::<2>(1) }
    //@ extents 0..4, position 2 | SymbolicLayout::with_dim
    6 [z3] with_dim2 { replaced::<2>(2) }
}
