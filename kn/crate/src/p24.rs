//! scalars: conversions between every pair of element types, construction, arithmetic
#[cfg(not(kani))]
use crate::kani;
use float8::{F8E4M3, F8E5M2};
use half::{bf16, f16};
use hodu_core::{scalar::Scalar, types::DType};

const ALL: [DType; 15] = [
    DType::BOOL, DType::F8E4M3, DType::F8E5M2, DType::BF16, DType::F16, DType::F32, DType::F64, DType::U8, DType::U16, DType::U32, DType::U64,
    DType::I8, DType::I16, DType::I32, DType::I64,
];
fn any_dtype() -> DType {
    let k: u8 = kani::any();
    kani::assume(k < 15);
    ALL[k as usize]
}
fn f(x: f32, y: f32) -> bool {
    x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan()
}
fn d(x: f64, y: f64) -> bool {
    x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan()
}
/// saturating truncation
macro_rules! clampi {
    ($x:expr, $t:ty) => {{
        let x: i128 = $x;
        if x < <$t>::MIN as i128 { <$t>::MIN } else if x > <$t>::MAX as i128 { <$t>::MAX } else { x as $t }
    }};
}

/// every integer target of a scalar holding the integer v
fn ints(s: Scalar, v: i128) {
    assert!(s.to_u8() == clampi!(v, u8) && s.to_u16() == clampi!(v, u16) && s.to_u32() == clampi!(v, u32) && s.to_u64() == clampi!(v, u64));
    assert!(s.to_i8() == clampi!(v, i8) && s.to_i16() == clampi!(v, i16) && s.to_i32() == clampi!(v, i32) && s.to_i64() == clampi!(v, i64));
    assert!(s.to_usize() == clampi!(v, usize) && s.to_isize() == clampi!(v, isize));
    assert!(s.to_bool() == (v != 0));
}
/// every integer target of a scalar holding the float v
fn floats(s: Scalar, v: f64) {
    assert!(s.to_u8() == v as u8 && s.to_u16() == v as u16 && s.to_u32() == v as u32 && s.to_u64() == v as u64);
    assert!(s.to_i8() == v as i8 && s.to_i16() == v as i16 && s.to_i32() == v as i32 && s.to_i64() == v as i64);
    assert!(s.to_usize() == v as usize && s.to_isize() == v as isize);
    assert!(s.to_bool() == (v != 0.0));
    assert!(s.is_float() && !s.is_int());
}
macro_rules! from_int {
    ($v:ident, $t:ty) => {{
        let x: $t = kani::any();
        let s = Scalar::$v(x);
        assert!(s.dtype() == DType::$v && s.is_int() && !s.is_float() && s.is_integer_value());
        ints(s, x as i128);
        assert!(f(s.to_f32(), x as f32) && d(s.to_f64(), x as f64));
        assert!(matches!(Scalar::from(x), Scalar::$v(y) if y == x));
    }};
}
macro_rules! small_int {
    ($v:ident, $t:ty) => {{
        let x: $t = kani::any();
        let s = Scalar::$v(x);
        let w = x as f32;
        assert!(s.to_bf16().to_bits() == bf16::from_f32(w).to_bits() && s.to_f16().to_bits() == f16::from_f32(w).to_bits());
        assert!(s.to_f8e4m3().to_bits() == F8E4M3::from_f32(w).to_bits() && s.to_f8e5m2().to_bits() == F8E5M2::from_f32(w).to_bits());
    }};
}
fn from_bool() {
    let x: bool = kani::any();
    let s = Scalar::BOOL(x);
    ints(s, x as i128);
    assert!(!s.is_int() && !s.is_float());
    assert!(f(s.to_f32(), x as u8 as f32) && d(s.to_f64(), x as u8 as f64));
    assert!(matches!(Scalar::from(x), Scalar::BOOL(y) if y == x));
}

/// to_dtype is the conversion of the target type, and keeps the value when the type is the same
fn retype(s: Scalar, t: DType) {
    let r = s.to_dtype(t);
    assert!(r.dtype() == t);
    match r {
        Scalar::BOOL(x) => assert!(x == s.to_bool()),
        Scalar::F32(x) => assert!(f(x, s.to_f32())),
        Scalar::F64(x) => assert!(d(x, s.to_f64())),
        Scalar::U8(x) => assert!(x == s.to_u8()),
        Scalar::U16(x) => assert!(x == s.to_u16()),
        Scalar::U32(x) => assert!(x == s.to_u32()),
        Scalar::U64(x) => assert!(x == s.to_u64()),
        Scalar::I8(x) => assert!(x == s.to_i8()),
        Scalar::I16(x) => assert!(x == s.to_i16()),
        Scalar::I32(x) => assert!(x == s.to_i32()),
        Scalar::I64(x) => assert!(x == s.to_i64()),
        _ => (),
    }
}
fn small(t: DType) -> bool {
    matches!(t, DType::F8E4M3 | DType::F8E5M2 | DType::BF16 | DType::F16)
}
/// the value of a scalar of a type that is not a small float
fn holds(s: Scalar, t: DType, b: bool, fl: f32, dd: f64, i: i128) {
    assert!(s.dtype() == t);
    match s {
        Scalar::BOOL(x) => assert!(x == b),
        Scalar::F32(x) => assert!(f(x, fl)),
        Scalar::F64(x) => assert!(d(x, dd)),
        Scalar::U8(x) => assert!(x as i128 == i),
        Scalar::U16(x) => assert!(x as i128 == i),
        Scalar::U32(x) => assert!(x as i128 == i),
        Scalar::U64(x) => assert!(x as i128 == i),
        Scalar::I8(x) => assert!(x as i128 == i),
        Scalar::I16(x) => assert!(x as i128 == i),
        Scalar::I32(x) => assert!(x as i128 == i),
        Scalar::I64(x) => assert!(x as i128 == i),
        _ => (),
    }
}
/// a value the type can hold is held
fn fits(t: DType, v: i128) -> bool {
    match t {
        DType::U8 => v >= 0 && v <= u8::MAX as i128,
        DType::U16 => v >= 0 && v <= u16::MAX as i128,
        DType::U32 => v >= 0 && v <= u32::MAX as i128,
        DType::U64 => v >= 0 && v <= u64::MAX as i128,
        DType::I8 => v >= i8::MIN as i128 && v <= i8::MAX as i128,
        DType::I16 => v >= i16::MIN as i128 && v <= i16::MAX as i128,
        DType::I32 => v >= i32::MIN as i128 && v <= i32::MAX as i128,
        DType::I64 => v >= i64::MIN as i128 && v <= i64::MAX as i128,
        _ => true,
    }
}
fn of_usize() {
    let (v, t): (usize, _) = (kani::any(), any_dtype());
    kani::assume(!small(t) && fits(t, v as i128));
    holds(Scalar::from_usize(v, t), t, v != 0, v as f32, v as f64, v as i128);
}
fn of_isize() {
    let (v, t): (isize, _) = (kani::any(), any_dtype());
    kani::assume(!small(t) && fits(t, v as i128));
    holds(Scalar::from_isize(v, t), t, v != 0, v as f32, v as f64, v as i128);
}
fn of_f32() {
    let (v, t): (f32, _) = (kani::any(), any_dtype());
    kani::assume(!small(t));
    let i = match t {
        DType::U8 => v as u8 as i128,
        DType::U16 => v as u16 as i128,
        DType::U32 => v as u32 as i128,
        DType::U64 => v as u64 as i128,
        DType::I8 => v as i8 as i128,
        DType::I16 => v as i16 as i128,
        DType::I32 => v as i32 as i128,
        _ => v as i64 as i128,
    };
    holds(Scalar::from_f32(v, t), t, v != 0.0, v, v as f64, i);
}
fn units() {
    let t = any_dtype();
    let (z, o) = (Scalar::zero(t), Scalar::one(t));
    assert!(z.dtype() == t && o.dtype() == t);
    assert!(!z.to_bool() && o.to_bool());
    holds(z, t, false, 0.0, 0.0, 0);
    holds(o, t, true, 1.0, 1.0, 1);
    match (z, o) {
        (Scalar::BF16(a), Scalar::BF16(b)) => assert!(a.to_bits() == 0 && b.to_bits() == 0x3f80),
        (Scalar::F16(a), Scalar::F16(b)) => assert!(a.to_bits() == 0 && b.to_bits() == 0x3c00),
        (Scalar::F8E4M3(a), Scalar::F8E4M3(b)) => assert!(a.to_bits() == 0 && b.to_bits() == 0x38),
        (Scalar::F8E5M2(a), Scalar::F8E5M2(b)) => assert!(a.to_bits() == 0 && b.to_bits() == 0x3c),
        _ => (),
    }
}

/// integer arithmetic: the exact result where the type can hold it
macro_rules! arith {
    ($v:ident, $t:ty) => {{
        let (x, y): ($t, $t) = (kani::any(), kani::any());
        let (a, b) = (Scalar::$v(x), Scalar::$v(y));
        if let Some(w) = x.checked_add(y) {
            assert!(matches!(a + b, Scalar::$v(z) if z == w));
        }
        if let Some(w) = x.checked_sub(y) {
            assert!(matches!(a - b, Scalar::$v(z) if z == w));
        }
    }};
}
macro_rules! mul {
    ($v:ident, $t:ty, $m:expr) => {{
        let (x, y): ($t, $t) = (kani::any(), kani::any());
        kani::assume(x <= $m && y <= $m);
        let (a, b) = (Scalar::$v(x), Scalar::$v(y));
        if let Some(w) = x.checked_mul(y) {
            assert!(matches!(a * b, Scalar::$v(z) if z == w));
        }
        if let Some(w) = x.checked_div(y) {
            assert!(matches!(a / b, Scalar::$v(z) if z == w));
        }
        if let Some(w) = x.checked_rem(y) {
            assert!(matches!(a % b, Scalar::$v(z) if z == w));
        }
    }};
}
macro_rules! farith {
    ($v:ident, $t:ty, $same:ident, $op:tt) => {{
        let (x, y): ($t, $t) = (kani::any(), kani::any());
        assert!(matches!(Scalar::$v(x) $op Scalar::$v(y), Scalar::$v(z) if $same(z, x $op y)));
    }};
}
fn logic() {
    let (x, y): (bool, bool) = (kani::any(), kani::any());
    let (a, b) = (Scalar::BOOL(x), Scalar::BOOL(y));
    assert!((a + b).to_bool() == (x || y) && (a * b).to_bool() == (x && y) && (a - b).to_bool() == (x && !y));
}
/// equality of scalars is equality of type and value
fn equality() {
    let (x, y): (i32, i32) = (kani::any(), kani::any());
    assert!((Scalar::I32(x) == Scalar::I32(y)) == (x == y));
    let (p, q): (f32, f32) = (kani::any(), kani::any());
    assert!((Scalar::F32(p) == Scalar::F32(q)) == (p == q));
    assert!(Scalar::I64(x as i64) != Scalar::I32(x));
}
/// the element types: sizes, kinds, names
fn dtypes() {
    let (t, u) = (any_dtype(), any_dtype());
    let n = match t {
        DType::BOOL | DType::F8E4M3 | DType::F8E5M2 | DType::U8 | DType::I8 => 1,
        DType::BF16 | DType::F16 | DType::U16 | DType::I16 => 2,
        DType::F32 | DType::U32 | DType::I32 => 4,
        _ => 8,
    };
    assert!(t.size_in_bytes() == n);
    assert!(t.is_float() == Scalar::zero(t).is_float() && (t.is_int() || t.is_uint()) == Scalar::zero(t).is_int() && !(t.is_int() && t.is_uint()));
    assert!((t == u) == (t as u8 == u as u8));
}

crate::harnesses! {
    //@ every u8 to every integer, bool, f32 and f64 | Scalar::to_* Scalar::dtype Scalar::is_int Scalar::from
    2 from_u8 { from_int!(U8, u8) }
    //@ every u16 to every integer, bool, f32 and f64 | Scalar::to_*
    2 from_u16 { from_int!(U16, u16) }
    //@ every u32 to every integer, bool, f32 and f64 | Scalar::to_*
    2 from_u32 { from_int!(U32, u32) }
    //@ every u64 to every integer, bool, f32 and f64 | Scalar::to_*
    2 from_u64 { from_int!(U64, u64) }
    //@ every i8 to every integer, bool, f32 and f64 | Scalar::to_*
    2 from_i8 { from_int!(I8, i8) }
    //@ every i16 to every integer, bool, f32 and f64 | Scalar::to_*
    2 from_i16 { from_int!(I16, i16) }
    //@ every i32 to every integer, bool, f32 and f64 | Scalar::to_*
    2 from_i32 { from_int!(I32, i32) }
    //@ every i64 to every integer, bool, f32 and f64 | Scalar::to_*
    2 from_i64 { from_int!(I64, i64) }
    //@ every u8 to every small float | Scalar::to_bf16 Scalar::to_f16 Scalar::to_f8e4m3 Scalar::to_f8e5m2
    2 small_u8 { small_int!(U8, u8) }
    //@ every i32 to every small float | Scalar::to_bf16 Scalar::to_f16 Scalar::to_f8e4m3 Scalar::to_f8e5m2
    2 small_i32 { small_int!(I32, i32) }
    //@ every bf16 to every other type | Scalar::to_*
    2 from_bf16 { let x = bf16::from_bits(kani::any()); floats(Scalar::BF16(x), x.to_f64()); assert!(f(Scalar::BF16(x).to_f32(), x.to_f32())) }
    //@ every f16 to every other type | Scalar::to_*
    2 from_f16 { let x = f16::from_bits(kani::any()); floats(Scalar::F16(x), x.to_f64()); assert!(f(Scalar::F16(x).to_f32(), x.to_f32())) }
    //@ every f8e4m3 to every other type | Scalar::to_*
    12 from_f8e4m3 { let x = F8E4M3::from_bits(kani::any()); floats(Scalar::F8E4M3(x), x.to_f64()); assert!(f(Scalar::F8E4M3(x).to_f32(), x.to_f32())) }
    //@ every f8e5m2 to every other type | Scalar::to_*
    2 from_f8e5m2 { let x = F8E5M2::from_bits(kani::any()); floats(Scalar::F8E5M2(x), x.to_f64()); assert!(f(Scalar::F8E5M2(x).to_f32(), x.to_f32())) }
    //@ both booleans to every integer, f32 and f64 | Scalar::to_*
    2 of_bool { from_bool() }
    //@ every f32 to every integer, bool and f64 | Scalar::to_*
    2 from_f32 {
        let x: f32 = kani::any();
        let s = Scalar::F32(x);
        floats(s, x as f64);
        assert!(s.dtype() == DType::F32 && f(s.to_f32(), x) && d(s.to_f64(), x as f64));
        assert!(matches!(Scalar::from(x), Scalar::F32(y) if f(y, x)));
    }
    //@ every f64 to every integer, bool and f32 | Scalar::to_*
    2 from_f64 {
        let x: f64 = kani::any();
        let s = Scalar::F64(x);
        floats(s, x);
        assert!(s.dtype() == DType::F64 && f(s.to_f32(), x as f32) && d(s.to_f64(), x));
        assert!(matches!(Scalar::from(x), Scalar::F64(y) if d(y, x)));
    }
    //@ every f32: whether it is an integer value | Scalar::is_integer_value
    2 whole {
        let x: f32 = kani::any();
        assert!(Scalar::F32(x).is_integer_value() == (x == x.trunc()));
    }
    //@ every u64, every target that is not a small float | Scalar::to_dtype
    2 to_dtype_u64 { let x: u64 = kani::any(); let t = any_dtype(); kani::assume(!small(t)); retype(Scalar::U64(x), t) }
    //@ every i64, every target that is not a small float | Scalar::to_dtype
    2 to_dtype_i64 { let x: i64 = kani::any(); let t = any_dtype(); kani::assume(!small(t)); retype(Scalar::I64(x), t) }
    //@ every i8, every target that is not a small float | Scalar::to_dtype
    2 to_dtype_i8 { let x: i8 = kani::any(); let t = any_dtype(); kani::assume(!small(t)); retype(Scalar::I8(x), t) }
    //@ every f32, every target that is not a small float | Scalar::to_dtype
    2 to_dtype_f32 { let x: f32 = kani::any(); let t = any_dtype(); kani::assume(!small(t)); retype(Scalar::F32(x), t) }
    //@ every f64, every target that is not a small float | Scalar::to_dtype
    2 to_dtype_f64 { let x: f64 = kani::any(); let t = any_dtype(); kani::assume(!small(t)); retype(Scalar::F64(x), t) }
    //@ every usize a type can hold, every type that is not a small float | Scalar::from_usize
    2 make_usize { of_usize() }
    //@ every isize a type can hold, every type that is not a small float | Scalar::from_isize
    2 make_isize { of_isize() }
    //@ every f32, every type that is not a small float | Scalar::from_f32
    2 make_f32 { of_f32() }
    //@ every type | Scalar::zero Scalar::one
    2 zero_one { units() }
    //@ every pair of u8 | Scalar::add Scalar::sub
    2 add_u8 { arith!(U8, u8) }
    //@ every pair of u16 | Scalar::add Scalar::sub
    2 add_u16 { arith!(U16, u16) }
    //@ every pair of u32 | Scalar::add Scalar::sub
    2 add_u32 { arith!(U32, u32) }
    //@ every pair of u64 | Scalar::add Scalar::sub
    2 add_u64 { arith!(U64, u64) }
    //@ every pair of i8 | Scalar::add Scalar::sub
    2 add_i8 { arith!(I8, i8) }
    //@ every pair of i16 | Scalar::add Scalar::sub
    2 add_i16 { arith!(I16, i16) }
    //@ every pair of i32 | Scalar::add Scalar::sub
    2 add_i32 { arith!(I32, i32) }
    //@ every pair of i64 | Scalar::add Scalar::sub
    2 add_i64 { arith!(I64, i64) }
    //@ every pair of u8 | Scalar::mul Scalar::div Scalar::rem
    2 mul_u8 { mul!(U8, u8, 255) }
    //@ every pair of i8 | Scalar::mul Scalar::div Scalar::rem
    2 mul_i8 { mul!(I8, i8, 127) }
    //@ every pair of u16 up to 500 | Scalar::mul Scalar::div Scalar::rem
    2 mul_u16 { mul!(U16, u16, 500) }
    //@ every pair of u32 up to 200 | Scalar::mul Scalar::div Scalar::rem
    2 mul_u32 { mul!(U32, u32, 200) }
    //@ every pair of u64 up to 200 | Scalar::mul Scalar::div Scalar::rem
    2 mul_u64 { mul!(U64, u64, 200) }
    //@ every pair of f32 | Scalar::add
    2 add_f32 { farith!(F32, f32, f, +) }
    //@ every pair of f32 | Scalar::sub
    2 sub_f32 { farith!(F32, f32, f, -) }
    //@ every pair of f32 | Scalar::mul
    2 mul_f32 { farith!(F32, f32, f, *) }
    //@ every pair of f64 | Scalar::add
    2 add_f64 { farith!(F64, f64, d, +) }
    //@ every pair of f64 | Scalar::sub
    2 sub_f64 { farith!(F64, f64, d, -) }
    //@ every pair of booleans | Scalar::add Scalar::sub Scalar::mul
    2 bools { logic() }
    //@ every pair of i32, of f32 | Scalar::eq
    2 equal { equality() }
    //@ every pair of element types | DType::size_in_bytes DType::is_float DType::is_int
    2 types { dtypes() }
}
