//! P22 snapshots: a captured program, run node by node from its snapshot, against the program run eagerly
//!
//! The snapshot is executed the way a backend would: every value is a buffer and the layout recorded for it; view
//! nodes share the buffer of their input; the operands of all others are read through the recorded input layouts.
use super::util::*;
use crate::ir::*;
use hodu_core::ops::Op;
use hodu_core::{
    error::HoduResult,
    op_params::*,
    ops::*,
    snapshot::{CaptureBoard, Snapshot, SnapshotNode},
    tensor::Tensor,
    types::{DType, Device, Layout, Shape},
};
use std::collections::HashMap;

#[derive(Clone)]
enum Buf {
    F(DType, Vec<E>),
    B(Vec<bool>),
    I(Vec<i32>),
    L(Vec<i64>),
}
#[derive(Clone)]
struct Val {
    b: Buf,
    l: Layout,
}
fn buffer(t: &Tensor) -> Result<Buf, String> {
    Ok(match t.dtype() {
        DType::F32 | DType::F64 => Buf::F(t.dtype(), from_t(t)?.d),
        DType::BOOL => Buf::B(t.to_flatten_vec().s()?),
        DType::I32 => Buf::I(t.to_flatten_vec().s()?),
        DType::I64 => Buf::L(t.to_flatten_vec().s()?),
        d => return Err(format!("no reader for {d:?}")),
    })
}
fn pick<T: Clone>(v: &[T], l: &Layout) -> Result<Vec<T>, String> {
    let mut o = vec![];
    for ix in indices(l.shape().dims()) {
        let p = l.offset() + ix.iter().zip(l.strides()).map(|(a, b)| a * b).sum::<usize>();
        o.push(v.get(p).ok_or_else(|| format!("layout {l:?} addresses {p} of {}", v.len()))?.clone());
    }
    Ok(o)
}
/// the tensor a layout describes in a buffer
fn read(b: &Buf, l: &Layout) -> Result<Tensor, String> {
    let s = l.shape().dims().to_vec();
    match b {
        Buf::F(d, v) => {
            let a = Arr::new(&s, pick(v, l)?);
            Ok(if *d == DType::F32 { to_t(&a) } else { to_t64(&a) })
        },
        Buf::B(v) => Tensor::from_slice(pick(v, l)?, s).s(),
        Buf::I(v) => Tensor::from_slice(pick(v, l)?, s).s(),
        Buf::L(v) => Tensor::from_slice(pick(v, l)?, s).s(),
    }
}
fn equal(x: &mut Cx, label: &str, got: &Tensor, want: &Tensor) -> R {
    x.check(label, got.shape() == want.shape() && got.dtype() == want.dtype(),
        format!("{:?} {:?} instead of {:?} {:?}", got.shape(), got.dtype(), want.shape(), want.dtype()));
    if got.shape() != want.shape() || got.dtype() != want.dtype() {
        return Ok(());
    }
    match want.dtype() {
        DType::F32 | DType::F64 => x.eq(label, got, &from_t(want)?)?,
        _ => {
            let same = match (buffer(got)?, buffer(want)?) {
                (Buf::B(a), Buf::B(b)) => a == b,
                (Buf::I(a), Buf::I(b)) => a == b,
                (Buf::L(a), Buf::L(b)) => a == b,
                _ => false,
            };
            x.check(label, same, "different elements");
        },
    }
    Ok(())
}

fn ints(v: &[hodu_core::scalar::Scalar]) -> Vec<i32> {
    v.iter().map(|s| s.to_i32()).collect()
}
macro_rules! conv {
    ($t:ident, $p:ident, $m:ident) => {{
        $t[0].$m(&$t[1], $p.stride, $p.padding, $p.dilation)
    }};
}
macro_rules! convt {
    ($t:ident, $p:ident, $m:ident) => {{
        $t[0].$m(&$t[1], $p.stride, $p.padding, $p.output_padding, $p.dilation)
    }};
}
/// what a node computes from its operands, by its operation and parameters alone
fn compute(n: &SnapshotNode, t: &[Tensor], out: &[usize]) -> Result<Tensor, String> {
    use OpParams as P;
    let p = n.params.as_ref();
    let a = t.first().ok_or("node without operands")?;
    let r: HoduResult<Tensor> = match (n.op.clone(), p) {
        (Op::Binary(o), _) => match o {
            BinaryOp::Add => a.add(&t[1]),
            BinaryOp::Sub => a.sub(&t[1]),
            BinaryOp::Mul => a.mul(&t[1]),
            BinaryOp::Div => a.div(&t[1]),
            BinaryOp::Rem => a.rem(&t[1]),
            BinaryOp::Pow => a.pow(&t[1]),
            BinaryOp::Maximum => a.maximum(&t[1]),
            BinaryOp::Minimum => a.minimum(&t[1]),
        },
        (Op::BinaryLogical(o), _) => match o {
            BinaryLogicalOp::LogicalAnd => a.logical_and(&t[1]),
            BinaryLogicalOp::LogicalOr => a.logical_or(&t[1]),
            BinaryLogicalOp::LogicalXor => a.logical_xor(&t[1]),
        },
        (Op::BitwiseBinary(o), _) => match o {
            BitwiseBinaryOp::Shl => a.shl(&t[1]),
            BitwiseBinaryOp::Shr => a.shr(&t[1]),
            BitwiseBinaryOp::And => a.bitwise_and(&t[1]),
            BitwiseBinaryOp::Or => a.bitwise_or(&t[1]),
            BitwiseBinaryOp::Xor => a.bitwise_xor(&t[1]),
        },
        (Op::BitwiseUnary(BitwiseUnaryOp::Not), _) => a.bitwise_not(),
        (Op::BitwiseUnaryScalar(o), Some(P::BitwiseUnaryScalar(p))) => match o {
            BitwiseUnaryScalarOp::ShlScalar => a.shl_scalar(p.shift),
            BitwiseUnaryScalarOp::ShrScalar => a.shr_scalar(p.shift),
        },
        (Op::Cmp(o), _) => match o {
            CmpOp::Eq => a.eq(&t[1]),
            CmpOp::Ne => a.ne(&t[1]),
            CmpOp::Lt => a.lt(&t[1]),
            CmpOp::Le => a.le(&t[1]),
            CmpOp::Gt => a.gt(&t[1]),
            CmpOp::Ge => a.ge(&t[1]),
        },
        (Op::CmpScalar(o), Some(P::CmpScalar(p))) => match o {
            CmpScalarOp::EqScalar => a.eq_scalar(p.scalar),
            CmpScalarOp::NeScalar => a.ne_scalar(p.scalar),
            CmpScalarOp::LtScalar => a.lt_scalar(p.scalar),
            CmpScalarOp::LeScalar => a.le_scalar(p.scalar),
            CmpScalarOp::GtScalar => a.gt_scalar(p.scalar),
            CmpScalarOp::GeScalar => a.ge_scalar(p.scalar),
        },
        (Op::Unary(o), _) => match o {
            UnaryOp::Neg => a.neg(),
            UnaryOp::Abs => a.abs(),
            UnaryOp::Sign => a.sign(),
            UnaryOp::Softsign => a.softsign(),
            UnaryOp::Square => a.square(),
            UnaryOp::Sqrt => a.sqrt(),
            UnaryOp::Recip => a.recip(),
            UnaryOp::Relu => a.relu(),
            UnaryOp::Sigmoid => a.sigmoid(),
            UnaryOp::HardSigmoid => a.hardsigmoid(),
            UnaryOp::Gelu => a.gelu(),
            UnaryOp::Softplus => a.softplus(),
            UnaryOp::Silu => a.silu(),
            UnaryOp::HardSilu => a.hardsilu(),
            UnaryOp::Mish => a.mish(),
            UnaryOp::Selu => a.selu(),
            UnaryOp::Celu => a.celu(),
            UnaryOp::Sin => a.sin(),
            UnaryOp::Cos => a.cos(),
            UnaryOp::Tan => a.tan(),
            UnaryOp::Asin => a.asin(),
            UnaryOp::Acos => a.acos(),
            UnaryOp::Atan => a.atan(),
            UnaryOp::Sinh => a.sinh(),
            UnaryOp::Cosh => a.cosh(),
            UnaryOp::Tanh => a.tanh(),
            UnaryOp::Asinh => a.asinh(),
            UnaryOp::Acosh => a.acosh(),
            UnaryOp::Atanh => a.atanh(),
            UnaryOp::Exp => a.exp(),
            UnaryOp::Exp2 => a.exp2(),
            UnaryOp::Exp10 => a.exp10(),
            UnaryOp::Ln => a.ln(),
            UnaryOp::Log2 => a.log2(),
            UnaryOp::Log10 => a.log10(),
            UnaryOp::Ceil => a.ceil(),
            UnaryOp::Floor => a.floor(),
            UnaryOp::Round => a.round(),
            UnaryOp::Erf => a.erf(),
        },
        (Op::UnaryLogical(o), _) => match o {
            UnaryLogicalOp::LogicalNot => a.logical_not(),
            UnaryLogicalOp::IsNan => a.isnan(),
            UnaryLogicalOp::IsInf => a.isinf(),
            UnaryLogicalOp::IsFinite => a.isfinite(),
        },
        (Op::UnaryScalar(o), Some(P::UnaryScalar(p))) => match o {
            UnaryScalarOp::AddScalar => a.add_scalar(p.scalar),
            UnaryScalarOp::SubScalar => a.sub_scalar(p.scalar),
            UnaryScalarOp::MulScalar => a.mul_scalar(p.scalar),
            UnaryScalarOp::DivScalar => a.div_scalar(p.scalar),
            UnaryScalarOp::RemScalar => a.rem_scalar(p.scalar),
            UnaryScalarOp::PowScalar => a.pow_scalar(p.scalar),
            UnaryScalarOp::MaximumScalar => a.maximum_scalar(p.scalar),
            UnaryScalarOp::MinimumScalar => a.minimum_scalar(p.scalar),
            UnaryScalarOp::LeakyRelu => a.leaky_relu(p.scalar),
            UnaryScalarOp::Elu => a.elu(p.scalar),
            UnaryScalarOp::Prelu => a.prelu(p.scalar),
        },
        (Op::Matrix(MatrixOp::Matmul), _) => a.matmul(&t[1]),
        (Op::Matrix(MatrixOp::Dot), _) => a.dot(&t[1]),
        (Op::Linalg(LinalgOp::Det), _) => a.det(),
        (Op::Linalg(LinalgOp::Inv), _) => a.inv(),
        (Op::Linalg(LinalgOp::Trace), _) => a.trace(),
        (Op::Reduce(o), Some(P::Reduce(p))) => {
            let (d, k) = (ints(&p.dims), p.keep_dim);
            match o {
                ReduceOp::Sum => a.sum(&d, k),
                ReduceOp::Mean => a.mean(&d, k),
                ReduceOp::Max => a.max(&d, k),
                ReduceOp::Min => a.min(&d, k),
                ReduceOp::Prod => a.prod(&d, k),
                ReduceOp::Std => a.std(&d, k),
                ReduceOp::Var => a.var(&d, k),
                ReduceOp::Norm => a.l2_norm(&d, k),
                ReduceOp::LogSum => a.logsum(&d, k),
                ReduceOp::LogSumExp => a.logsumexp(&d, k),
                ReduceOp::ArgMax => a.argmax(&d, k),
                ReduceOp::ArgMin => a.argmin(&d, k),
                ReduceOp::Any => a.any(&d, k),
                ReduceOp::All => a.all(&d, k),
            }
        },
        (Op::Concat(_), Some(P::Concat(p))) => Tensor::concat(&t.iter().collect::<Vec<_>>(), p.dim),
        (Op::Split(_), Some(P::Split(p))) => {
            let sizes: Vec<usize> = p.sizes.iter().map(|s| s.to_usize()).collect();
            a.split(&sizes, p.dim).map(|v| v[p.output_index].clone())
        },
        (Op::Indexing(o), Some(p)) => match (o, p) {
            (IndexingOp::IndexSelect, P::IndexSelect(p)) => a.index_select(p.dim, &t[1]),
            (IndexingOp::IndexPut, P::IndexPut(p)) => a.index_put(p.dim, &t[2], &t[1]),
            (IndexingOp::Gather, P::Gather(p)) => a.gather(p.dim, &t[1]),
            (IndexingOp::Scatter, P::Scatter(p)) => a.scatter(p.dim, &t[2], &t[1]),
            (IndexingOp::ScatterAdd, P::ScatterAdd(p)) => a.scatter_add(p.dim, &t[2], &t[1]),
            (IndexingOp::ScatterMax, P::ScatterMax(p)) => a.scatter_max(p.dim, &t[2], &t[1]),
            (IndexingOp::ScatterMin, P::ScatterMin(p)) => a.scatter_min(p.dim, &t[2], &t[1]),
            (IndexingOp::Onehot, P::Onehoto(p)) => a.onehot(p.num_classes, p.axis, p.dtype),
            (IndexingOp::Nonzero, P::Nonzero(_)) => a.nonzero(),
            (IndexingOp::Unique, P::Unique(_)) => a.unique().map(|u| u.0),
            (IndexingOp::Compress, P::Compress(p)) => a.compress(&t[1], p.axis.map(|s| s.to_i32())),
            _ => return Err(format!("{:?} with parameters of another operation: {p:?}", n.op)),
        },
        (Op::Conv(o), Some(p)) => match (o, p) {
            (ConvOp::Conv1d, P::Conv1d(p)) => conv!(t, p, conv1d),
            (ConvOp::Conv2d, P::Conv2d(p)) => conv!(t, p, conv2d),
            (ConvOp::Conv3d, P::Conv3d(p)) => conv!(t, p, conv3d),
            (ConvOp::ConvTranspose1d, P::ConvTranspose1d(p)) => convt!(t, p, conv_transpose1d),
            (ConvOp::ConvTranspose2d, P::ConvTranspose2d(p)) => convt!(t, p, conv_transpose2d),
            (ConvOp::ConvTranspose3d, P::ConvTranspose3d(p)) => convt!(t, p, conv_transpose3d),
            _ => return Err(format!("{:?} with parameters of another operation: {p:?}", n.op)),
        },
        (Op::Windowing(o), Some(P::ReduceWindow(p))) => {
            let r = match o {
                WindowingOp::ReduceWindowMax => "max",
                WindowingOp::ReduceWindowMean => "mean",
                WindowingOp::ReduceWindowSum => "sum",
                WindowingOp::ReduceWindowMin => "min",
            };
            a.reduce_window(p.window_shape.clone(), p.strides.clone(), &p.padding, r)
        },
        (Op::Resize(_), Some(P::Resize(p))) => {
            let m = match p.mode {
                ResizeMode::Nearest => "nearest",
                ResizeMode::Linear => "linear",
                ResizeMode::Cubic => "cubic",
            };
            let c = match p.coord_transform {
                ResizeCoordTransform::HalfPixel => "half_pixel",
                ResizeCoordTransform::Asymmetric => "asymmetric",
                ResizeCoordTransform::AlignCorners => "align_corners",
                ResizeCoordTransform::PytorchHalfPixel => "pytorch_half_pixel",
            };
            let k = match p.nearest_mode {
                ResizeNearestMode::Floor => "floor",
                ResizeNearestMode::Ceil => "ceil",
                ResizeNearestMode::RoundPreferFloor => "round_prefer_floor",
                ResizeNearestMode::RoundPreferCeil => "round_prefer_ceil",
            };
            a.resize(&p.output_size, m, c, k)
        },
        (Op::Padding(o), Some(P::Padding(p))) => match o {
            PaddingOp::PadConstant => a.pad_constant(&p.padding, p.pad_value),
            PaddingOp::PadReflect => a.pad_reflect(&p.padding),
            PaddingOp::PadReplicate => a.pad_replicate(&p.padding),
            PaddingOp::PadCircular => a.pad_circular(&p.padding),
        },
        (Op::Scan(ScanOp::CumSum), Some(P::Scan(p))) => a.cumsum(p.dim as i32),
        (Op::Sort(SortOp::TopK), Some(P::TopK(p))) => {
            let (v, i) = a.topk(p.k, p.dim, p.largest, p.sorted).s()?;
            Ok(if n.output_dtype == DType::I32 { i } else { v })
        },
        (Op::Einsum(_), Some(P::Einsum(p))) => Tensor::einsum(&p.equation, &t.iter().collect::<Vec<_>>()),
        (Op::ShapeMemory(ShapeMemoryOp::Flip), Some(P::Flip(p))) => a.flip(&p.dims.iter().map(|&d| d as i32).collect::<Vec<_>>()),
        (Op::Cast(CastOp::ToDType), Some(P::ToDType(p))) => a.to_dtype(p.dtype),
        (Op::Memory(MemoryOp::Contiguous), _) => a.contiguous(),
        // views: by value; the layout is checked separately
        (Op::Shape(ShapeOp::Transpose), Some(P::Transpose(p))) => a.transpose(p.dim1, p.dim2),
        (Op::Shape(ShapeOp::Permute), Some(P::Permute(p))) => a.permute(&p.axes),
        (Op::Shape(ShapeOp::Broadcast), _) => a.broadcast(out.to_vec()),
        (Op::Shape(ShapeOp::Reshape | ShapeOp::Flatten | ShapeOp::Squeeze | ShapeOp::Unsqueeze), _) => a.reshape(out.to_vec()),
        (Op::ShapeScalars(ShapeScalarsOp::Slice), Some(P::Slice(p))) => a.slice(p.dim, p.start, Some(p.end), p.step),
        (o, p) => return Err(format!("{o:?} with parameters {p:?}")),
    };
    r.s()
}
/// the extents a backend is told must be those of the operands
fn extents(x: &mut Cx, lab: &str, n: &SnapshotNode, t: &[Tensor]) {
    use OpParams as P;
    let d = |k: usize| t[k].shape().dims().to_vec();
    let (got, want) = match n.params.as_ref() {
        Some(P::Conv1d(p)) => (vec![p.batch_size, p.channels_input, p.length_input, p.channels_output, p.kernel_size], [&d(0)[..], &[d(1)[0]], &d(1)[2..]].concat()),
        Some(P::Conv2d(p)) => (vec![p.batch_size, p.channels_input, p.input_height, p.input_width, p.channels_output, p.kernel_height, p.kernel_width], [&d(0)[..], &[d(1)[0]], &d(1)[2..]].concat()),
        Some(P::Conv3d(p)) => (
            vec![p.batch_size, p.channels_input, p.input_depth, p.input_height, p.input_width, p.channels_output, p.kernel_depth, p.kernel_height, p.kernel_width],
            [&d(0)[..], &[d(1)[0]], &d(1)[2..]].concat(),
        ),
        Some(P::ConvTranspose1d(p)) => (vec![p.batch_size, p.channels_input, p.length_input, p.channels_output, p.kernel_size], [&d(0)[..], &[d(1)[1]], &d(1)[2..]].concat()),
        Some(P::ConvTranspose2d(p)) => (vec![p.batch_size, p.channels_input, p.input_height, p.input_width, p.channels_output, p.kernel_height, p.kernel_width], [&d(0)[..], &[d(1)[1]], &d(1)[2..]].concat()),
        Some(P::ConvTranspose3d(p)) => (
            vec![p.batch_size, p.channels_input, p.input_depth, p.input_height, p.input_width, p.channels_output, p.kernel_depth, p.kernel_height, p.kernel_width],
            [&d(0)[..], &[d(1)[1]], &d(1)[2..]].concat(),
        ),
        _ => return,
    };
    x.check(lab, got == want, format!("extents {got:?} instead of {want:?}"));
}

/// run a snapshot on the given inputs
fn run(x: &mut Cx, s: &Snapshot, ins: &[(&str, Tensor)]) -> Result<Vec<(String, Tensor)>, String> {
    let mut vals: HashMap<usize, Val> = HashMap::new();
    x.check("inputs", s.inputs.len() == ins.len(), format!("{} inputs", s.inputs.len()));
    for i in &s.inputs {
        let t = &ins.iter().find(|(n, _)| *n == i.name).ok_or(format!("unknown input {}", i.name))?.1;
        x.check("input", t.shape() == i.shape && t.dtype() == i.dtype, format!("{} is {:?} {:?}", i.name, i.shape, i.dtype));
        vals.insert(i.id.0, Val { b: buffer(t)?, l: Layout::from_shape(&i.shape) });
    }
    for c in &s.constants {
        let t = Tensor::from_bytes(&c.data, c.shape.clone(), c.dtype, Device::CPU).s()?;
        x.check("constant", !vals.contains_key(&c.id.0), "defined twice");
        vals.insert(c.id.0, Val { b: buffer(&t)?, l: Layout::from_shape(&c.shape) });
    }
    for (k, n) in s.nodes.iter().enumerate() {
        let lab = format!("node{k}.{:?}", n.op);
        let mut t = vec![];
        x.check(&lab, n.input_ids.len() == n.input_layouts.len(), "operands and layouts");
        for (id, l) in n.input_ids.iter().zip(&n.input_layouts) {
            let v = vals.get(&id.0).ok_or(format!("{lab}: operand {} not defined before", id.0))?;
            x.check(&lab, v.l == *l || s.constants.iter().any(|c| c.id == *id), format!("operand recorded with {l:?}, produced with {:?}", v.l));
            t.push(read(&v.b, l)?);
        }
        x.check(&lab, !vals.contains_key(&n.output_id.0), "value defined twice");
        let out = n.output_layout.shape().dims().to_vec();
        extents(x, &lab, n, &t);
        if matches!(n.op, Op::Shape(ShapeOp::Transpose | ShapeOp::Permute)) && n.params.is_none() {
            // the layouts alone say which axes moved
            let axes = |l: &Layout| {
                let mut v: Vec<_> = l.shape().dims().iter().copied().zip(l.strides().iter().copied()).collect();
                v.sort();
                v
            };
            let (i, o) = (&n.input_layouts[0], &n.output_layout);
            x.check(&lab, axes(i) == axes(o) && i.offset() == o.offset() && n.output_dtype == t[0].dtype(), format!("{i:?} to {o:?}"));
            let v = Val { b: vals[&n.input_ids[0].0].b.clone(), l: o.clone() };
            vals.insert(n.output_id.0, v);
            continue;
        }
        let r = compute(n, &t, &out).map_err(|e| format!("{lab}: {e}"))?;
        x.check(&lab, r.dtype() == n.output_dtype, format!("gives {:?}, recorded as {:?}", r.dtype(), n.output_dtype));
        let v = match n.op.clone() {
            Op::Shape(_) | Op::ShapeScalars(_) => {
                let v = Val { b: vals[&n.input_ids[0].0].b.clone(), l: n.output_layout.clone() };
                equal(x, &lab, &read(&v.b, &v.l)?, &r)?;
                v
            },
            _ => {
                let shape = r.shape().dims().to_vec();
                match &n.symbolic_output_layout {
                    // the extent depends on the data: room for the largest
                    Some(sy) => x.check(&lab, sy.ndim() == shape.len() && out.len() == shape.len() && shape.iter().zip(&out).all(|(a, b)| a <= b), format!("{shape:?} does not fit {out:?}")),
                    None => x.check(&lab, shape == out, format!("gives {shape:?}, recorded as {out:?}")),
                }
                x.check(&lab, n.output_layout.is_contiguous() && n.output_layout.offset() == 0, "new buffer that is not contiguous");
                Val { b: buffer(&r)?, l: Layout::from_shape(&Shape::from(shape)) }
            },
        };
        vals.insert(n.output_id.0, v);
        if let Some(OpParams::Unique(p)) = &n.params {
            let (_, i, c) = t[0].unique().s()?;
            for (id, t) in [(p.inverse_id, i), (p.counts_id, c)] {
                x.check(&lab, !vals.contains_key(&id.as_usize()), "value defined twice");
                vals.insert(id.as_usize(), Val { b: buffer(&t)?, l: t.layout() });
            }
        }
        if let Some(OpParams::TopK(p)) = &n.params {
            x.check(&lab, s.nodes.iter().any(|m| m.output_id.0 == p.indices_id.as_usize() && m.input_ids == n.input_ids), "the indices are another tensor");
        }
    }
    let mut o = vec![];
    for t in &s.targets {
        let v = vals.get(&t.id.0).ok_or(format!("target {} is not computed", t.name))?;
        o.push((t.name.clone(), read(&v.b, &v.l)?));
    }
    Ok(o)
}

/// no board stays open when a path ends early
struct Open(CaptureBoard);
impl Drop for Open {
    fn drop(&mut self) {
        self.0.close();
    }
}
type Prog = std::rc::Rc<dyn Fn(&[Tensor]) -> HoduResult<Vec<Tensor>>>;

const NAMES: [&str; 4] = ["a", "b", "c", "d"];
/// the inputs given as values, the program run both ways
fn both(x: &mut Cx, ins: &[Tensor], f: &Prog, bytes: bool) -> R {
    let want = f(ins).s()?;
    let board = Open(CaptureBoard::with_name("prog"));
    board.0.open();
    let mut sy = vec![];
    for (k, t) in ins.iter().enumerate() {
        sy.push(Tensor::input(NAMES[k], t.shape(), t.dtype()).s()?);
    }
    let got = f(&sy).s()?;
    board.0.close();
    x.check("targets", got.len() == want.len(), "another number of results");
    for (k, g) in got.iter().enumerate() {
        x.check("target", g.dtype() == want[k].dtype(), format!("{k} is {:?}", g.dtype()));
        board.0.with_target(format!("t{k}"), g.clone());
    }
    drop(got);
    drop(sy);
    let mut s = board.0.capture();
    x.check("name", s.name.as_deref() == Some("prog"), format!("{:?}", s.name));
    if bytes {
        s = Snapshot::from_bytes(&s.to_bytes().s()?).s()?;
    }
    let named: Vec<_> = ins.iter().enumerate().map(|(k, t)| (NAMES[k], t.clone())).collect();
    let res = run(x, &s, &named)?;
    x.check("targets", res.len() == want.len() && res.iter().enumerate().all(|(k, r)| r.0 == format!("t{k}")), "names or number of targets");
    for (k, (_, t)) in res.iter().enumerate() {
        equal(x, &format!("target{k}"), t, &want[k])?;
    }
    Ok(())
}
fn prog(f: impl Fn(&[Tensor]) -> HoduResult<Vec<Tensor>> + 'static) -> Prog {
    std::rc::Rc::new(f)
}

/// ways an operand reaches an operation: as given, or as a view taken in the program
#[derive(Clone, Copy, Debug, PartialEq)]
enum Pre {
    None,
    T,
    Step,
    Tail,
    Bc,
    Plus,
}
const PRE: [Pre; 6] = [Pre::None, Pre::T, Pre::Step, Pre::Tail, Pre::Bc, Pre::Plus];
/// the extents of the input that a view makes into `s`
fn before(s: &[usize], p: Pre) -> Option<Vec<usize>> {
    let n = s.len();
    let mut v = s.to_vec();
    match p {
        Pre::None | Pre::Plus => {},
        Pre::T if n >= 2 => v.swap(n - 1, n - 2),
        Pre::Step if n >= 1 => v[n - 1] = 2 * v[n - 1] + 1,
        Pre::Tail if n >= 1 => v[0] += 2,
        Pre::Bc if n >= 1 => v[0] = 1,
        _ => return None,
    }
    Some(v)
}
fn view(t: &Tensor, s: &[usize], p: Pre) -> HoduResult<Tensor> {
    match p {
        Pre::None => Ok(t.clone()),
        Pre::Plus => t.add(t),
        Pre::T => t.transpose(-1, -2),
        Pre::Step => t.slice(-1, 1, None, 2),
        Pre::Tail => t.slice(0, 2, None, 1),
        Pre::Bc => t.broadcast(s.to_vec()),
    }
}

struct Item {
    name: String,
    ins: Vec<(Vec<usize>, f64, f64)>,
    f: Prog,
}
fn items(thorough: bool) -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    macro_rules! one {
        ($n:expr, [$($s:expr),*], $lo:expr, $hi:expr, |$($t:ident),*| $e:expr) => {
            v.push(Item { name: $n.to_string(), ins: vec![$((Vec::<usize>::from($s), $lo, $hi)),*], f: prog(|ts: &[Tensor]| {
                let [$($t),*] = ts else { unreachable!() };
                Ok(vec![$e?])
            }) })
        };
    }
    macro_rules! unary {
        ($($m:ident $lo:literal $hi:literal),*) => { $( one!(stringify!($m), [[2, 3]], $lo, $hi, |a| a.$m()); )* };
    }
    unary!(neg -2.0 2.0, abs -2.0 2.0, sign -2.0 2.0, softsign -2.0 2.0, square -2.0 2.0, sqrt 0.5 2.0, recip 0.5 2.0, relu -2.0 2.0, sigmoid -2.0 2.0, hardsigmoid -4.0 4.0, gelu -2.0 2.0,
        softplus -2.0 2.0, silu -2.0 2.0, hardsilu -4.0 4.0, mish -2.0 2.0, selu -2.0 2.0, celu -2.0 2.0, sin -2.0 2.0, cos -2.0 2.0, tan -1.0 1.0, asin -0.9 0.9, acos -0.9 0.9, atan -2.0 2.0,
        sinh -2.0 2.0, cosh -2.0 2.0, tanh -2.0 2.0, asinh -2.0 2.0, acosh 1.5 3.0, atanh -0.9 0.9, exp -2.0 2.0, exp2 -2.0 2.0, exp10 -1.0 1.0, ln 0.5 2.0, log2 0.5 2.0, log10 0.5 2.0,
        ceil -2.0 2.0, floor -2.0 2.0, round -2.0 2.0, erf -2.0 2.0, logical_not -2.0 2.0, isnan -2.0 2.0, isinf -2.0 2.0, isfinite -2.0 2.0, swish -2.0 2.0, hardswish -4.0 4.0,
        contiguous -2.0 2.0, flatten -2.0 2.0, sum_all -2.0 2.0, mean_all -2.0 2.0, var_all -2.0 2.0, t -2.0 2.0);
    macro_rules! binary {
        ($($m:ident $lo:literal $hi:literal),*) => { $(
            one!(stringify!($m), [[2, 3], [2, 3]], $lo, $hi, |a, b| a.$m(b));
            one!(concat!(stringify!($m), ".bc"), [[2, 1], [3]], $lo, $hi, |a, b| a.$m(b));
        )* };
    }
    binary!(add -2.0 2.0, sub -2.0 2.0, mul -2.0 2.0, div 0.5 2.0, maximum -2.0 2.0, minimum -2.0 2.0, rem 0.5 2.0,
        eq -2.0 2.0, ne -2.0 2.0, lt -2.0 2.0, le -2.0 2.0, gt -2.0 2.0, ge -2.0 2.0);
    one!("logical_and", [[1, 2], [1, 2]], -2.0, 2.0, |a, b| a.logical_and(b));
    one!("logical_or", [[2, 1], [2]], -2.0, 2.0, |a, b| a.logical_or(b));
    one!("logical_xor", [[1, 2], [1, 2]], -2.0, 2.0, |a, b| a.logical_xor(b));
    macro_rules! scalar {
        ($($m:ident $s:literal $lo:literal $hi:literal),*) => { $( one!(stringify!($m), [[2, 3]], $lo, $hi, |a| a.$m($s)); )* };
    }
    scalar!(add_scalar 1.5f32 -2.0 2.0, sub_scalar 1.5f32 -2.0 2.0, mul_scalar 1.5f32 -2.0 2.0, div_scalar 1.5f32 -2.0 2.0, pow_scalar 2.0f32 0.5 2.0, maximum_scalar 0.25f32 -2.0 2.0, minimum_scalar 0.25f32 -2.0 2.0,
        leaky_relu 0.125f32 -2.0 2.0, elu 0.75f32 -2.0 2.0, prelu 0.25f32 -2.0 2.0, eq_scalar 0.5f32 -2.0 2.0, ne_scalar 0.5f32 -2.0 2.0, lt_scalar 0.5f32 -2.0 2.0, le_scalar 0.5f32 -2.0 2.0,
        gt_scalar 0.5f32 -2.0 2.0, ge_scalar 0.5f32 -2.0 2.0);
    macro_rules! reduce {
        ($($m:ident $lo:literal $hi:literal),*) => { $(
            one!(concat!(stringify!($m), ".1"), [[2, 3]], $lo, $hi, |a| a.$m(&[1], false));
            one!(concat!(stringify!($m), ".keep"), [[2, 1, 3]], $lo, $hi, |a| a.$m(&[-1, 0], true));
            one!(concat!(stringify!($m), ".all"), [[2, 2]], $lo, $hi, |a| a.$m::<i32>(&[], false));
        )* };
    }
    reduce!(sum -2.0 2.0, mean -2.0 2.0, max -2.0 2.0, min -2.0 2.0, prod -2.0 2.0, std 0.5 2.0, var -2.0 2.0, l2_norm 0.5 2.0, l1_norm -2.0 2.0, logsum 0.5 2.0, logsumexp -2.0 2.0, any -2.0 2.0, all -2.0 2.0);
    one!("argmax", [[2, 3]], -2.0, 2.0, |a| a.argmax(&[1], false));
    one!("argmin", [[2, 3]], -2.0, 2.0, |a| a.argmin(&[-2], true));
    one!("norm3", [[2, 3]], 0.5, 2.0, |a| a.norm(3.0f32, &[1], false));
    one!("softmax", [[2, 3]], -2.0, 2.0, |a| a.softmax(1));
    one!("log_softmax", [[2, 3]], -2.0, 2.0, |a| a.log_softmax(0));
    one!("matmul", [[2, 3], [3, 2]], -2.0, 2.0, |a, b| a.matmul(b));
    one!("matmul.b", [[2, 1, 2, 3], [2, 3, 2]], -2.0, 2.0, |a, b| a.matmul(b));
    one!("dot", [[2, 3], [3, 2]], -2.0, 2.0, |a, b| a.dot(b));
    one!("det", [[2, 2]], -2.0, 2.0, |a| a.det());
    one!("trace", [[2, 2]], -2.0, 2.0, |a| a.trace());
    one!("inv", [[1, 1]], 0.5, 2.0, |a| a.inv());
    one!("concat", [[2, 3], [2, 1], [2, 2]], -2.0, 2.0, |a, b, c| Tensor::concat(&[a, b, c], -1));
    one!("stack", [[2, 2], [2, 2]], -2.0, 2.0, |a, b| Tensor::stack(&[a, b], 1));
    for k in 0..3 {
        v.push(Item { name: format!("split.{k}"), ins: vec![(vec![2, 5], -2.0, 2.0)], f: prog(move |t| Ok(vec![t[0].split(&[2, 1, 2], -1)?[k].clone()])) });
    }
    v.push(Item { name: "split.all".into(), ins: vec![(vec![3, 2], -2.0, 2.0)], f: prog(|t| t[0].split(&[1, 2], 0)) });
    v.push(Item { name: "chunk".into(), ins: vec![(vec![2, 5], -2.0, 2.0)], f: prog(|t| t[0].chunk(2, 1)) });
    one!("cumsum", [[2, 3]], -2.0, 2.0, |a| a.cumsum(1));
    one!("cumsum.neg", [[2, 3]], -2.0, 2.0, |a| a.cumsum(-2));
    one!("flip", [[2, 3]], -2.0, 2.0, |a| a.flip(&[-1]));
    one!("flip2", [[2, 3]], -2.0, 2.0, |a| a.flip(&[0, 1]));
    one!("reshape", [[2, 3]], -2.0, 2.0, |a| a.reshape([3, 2]));
    one!("squeeze", [[2, 1, 3]], -2.0, 2.0, |a| a.squeeze(&[1]));
    one!("unsqueeze", [[2, 3]], -2.0, 2.0, |a| a.unsqueeze(-1));
    one!("broadcast", [[2, 1]], -2.0, 2.0, |a| a.broadcast([3, 2, 2]));
    one!("permute", [[2, 1, 3]], -2.0, 2.0, |a| a.permute(&[2, 0, 1]));
    one!("repeat", [[2, 2]], -2.0, 2.0, |a| a.repeat(&[2, 1]));
    one!("slice", [[3, 4]], -2.0, 2.0, |a| a.slice(1, 1, Some(4), 2));
    one!("slice.open", [[4, 2]], -2.0, 2.0, |a| a.slice(0, -3, None, 1));
    one!("slice.rev", [[2, 4]], -2.0, 2.0, |a| a.slice(1, 3, Some(0), -1));
    one!("slice.revopen", [[2, 4]], -2.0, 2.0, |a| a.slice(1, -1, None, -2));
    one!("pad", [[2, 3]], -2.0, 2.0, |a| a.pad_constant(&[(1, 0), (0, 2)], 0.5f32));
    one!("pad_reflect", [[2, 3]], -2.0, 2.0, |a| a.pad_reflect(&[(1, 0), (0, 2)]));
    one!("pad_replicate", [[2, 3]], -2.0, 2.0, |a| a.pad_replicate(&[(1, 0), (0, 2)]));
    one!("pad_circular", [[2, 3]], -2.0, 2.0, |a| a.pad_circular(&[(1, 0), (0, 2)]));
    for m in ["max", "mean", "sum", "min"] {
        v.push(Item { name: format!("window.{m}"), ins: vec![(vec![3, 3], -2.0, 2.0)], f: prog(move |t| Ok(vec![t[0].reduce_window([2, 1], [1, 2], &[(0, 1), (0, 0)], m)?])) });
    }
    one!("conv1d", [[1, 2, 4], [2, 2, 2]], -2.0, 2.0, |a, b| a.conv1d(b, 2, 1, 1));
    one!("conv2d", [[1, 2, 3, 4], [2, 2, 2, 1]], -2.0, 2.0, |a, b| a.conv2d(b, 1, 1, 2));
    one!("conv3d", [[1, 1, 2, 3, 2], [2, 1, 1, 2, 1]], -2.0, 2.0, |a, b| a.conv3d(b, 1, 0, 1));
    one!("convt1d", [[1, 2, 3], [2, 1, 2]], -2.0, 2.0, |a, b| a.conv_transpose1d(b, 2, 1, 1, 1));
    one!("convt2d", [[1, 2, 2, 2], [2, 1, 2, 1]], -2.0, 2.0, |a, b| a.conv_transpose2d(b, 2, 0, 1, 1));
    one!("convt3d", [[1, 1, 2, 1, 2], [1, 2, 1, 2, 1]], -2.0, 2.0, |a, b| a.conv_transpose3d(b, 1, 0, 0, 1));
    for (m, c, k) in [("nearest", "half_pixel", "floor"), ("nearest", "asymmetric", "ceil"), ("nearest", "align_corners", "round_prefer_floor"), ("nearest", "half_pixel", "round_prefer_ceil"), ("linear", "align_corners", "floor"),
        ("linear", "pytorch_half_pixel", "floor"), ("cubic", "asymmetric", "floor")]
    {
        v.push(Item { name: format!("resize.{m}.{c}.{k}"), ins: vec![(vec![1, 1, 2, 3], -2.0, 2.0)], f: prog(move |t| Ok(vec![t[0].resize(&[3, 2], m, c, k)?])) });
    }
    one!("einsum", [[2, 3], [3, 2]], -2.0, 2.0, |a, b| Tensor::einsum("ij,jk->ki", &[a, b]));
    one!("where", [[2, 3], [2, 3]], -2.0, 2.0, |a, b| a.where3(&a.gt(b)?, b));
    v.push(Item { name: "topk".into(), ins: vec![(vec![2, 3], -2.0, 2.0)], f: prog(|t| { let (v, i) = t[0].topk(2, -1, true, true)?; Ok(vec![v, i]) }) });
    v.push(Item { name: "topk0".into(), ins: vec![(vec![3, 1], -2.0, 2.0)], f: prog(|t| { let (v, i) = t[0].topk(1, 0, false, true)?; Ok(vec![i, v]) }) });
    one!("nonzero", [[2, 2]], -2.0, 2.0, |a| a.gt_scalar(0.5f32)?.nonzero());
    one!("unique", [[2]], -2.0, 2.0, |a| Ok::<_, hodu_core::error::HoduError>(a.unique()?.0));
    v.push(Item { name: "unique.all".into(), ins: vec![(vec![2], -2.0, 2.0)], f: prog(|t| { let (v, i, c) = t[0].unique()?; Ok(vec![i, c, v]) }) });
    v.push(Item { name: "unique.counts".into(), ins: vec![(vec![2], -2.0, 2.0)], f: prog(|t| Ok(vec![t[0].unique()?.2])) });
    one!("compress", [[3, 2], [3]], -2.0, 2.0, |a, b| a.compress(&b.gt_scalar(0.5f32)?, Some(0)));
    one!("compress.flat", [[2, 2], [4]], -2.0, 2.0, |a, b| a.compress(&b.gt_scalar(0.5f32)?, None));
    one!("to_f64", [[2, 3]], -2.0, 2.0, |a| a.to_dtype(DType::F64));
    one!("onehot", [[3]], -2.0, 2.0, |a| a.argmax(&[0], true)?.onehot(3, -1, DType::F32));
    one!("sum_to_shape", [[2, 3]], -2.0, 2.0, |a| a.sum_to_shape([1, 3]));
    // several operations
    one!("mlp", [[2, 2], [2, 2], [2]], -2.0, 2.0, |x, w, b| x.matmul(&w.t()?)?.add(b)?.relu()?.softmax(-1));
    one!("branch", [[2, 3], [3]], -2.0, 2.0, |a, b| {
        let s = a.mul(b)?;
        let p = s.slice(1, 0, Some(2), 1)?.transpose(0, 1)?;
        Tensor::concat(&[&p, &s.slice(1, 1, None, 1)?.t()?.mul_scalar(2.0f32)?], 0)
    });
    v.push(Item { name: "many".into(), ins: vec![(vec![2, 3], -2.0, 2.0), (vec![2, 3], -2.0, 2.0)], f: prog(|t| {
        let s = t[0].add(&t[1])?;
        let _unused = s.exp()?;
        let p = s.permute(&[1, 0])?;
        Ok(vec![p.sum(&[0], false)?, p.clone(), s.mul(&t[0])?, t[1].neg()?])
    }) });
    if thorough {
        one!("conv2d.s2", [[2, 1, 4, 4], [1, 1, 2, 2]], -2.0, 2.0, |a, b| a.conv2d(b, 2, 0, 1));
        one!("matmul.1d", [[3, 3], [3, 3]], -2.0, 2.0, |a, b| a.matmul(b)?.matmul(a));
    }
    v
}

pub fn snapshots(cs: &mut Cases) {
    for it in items(cs.thorough) {
        for pre in PRE {
            // the view on the first operand only, then on all
            for all in [false, true] {
                if all && (it.ins.len() == 1 || pre == Pre::None) {
                    continue;
                }
                let mut shapes = vec![];
                let mut ok = true;
                for (k, i) in it.ins.iter().enumerate() {
                    match before(&i.0, if k == 0 || all { pre } else { Pre::None }) {
                        Some(s) => shapes.push(s),
                        None => ok = false,
                    }
                }
                // sums of the input leave the domain of some functions
                ok &= pre != Pre::Plus || it.ins.iter().all(|i| i.1 == -2.0 && i.2 == 2.0) && !it.name.starts_with("is");
                if !ok {
                    continue;
                }
                let (f, ins) = (it.f.clone(), it.ins.clone());
                let nm = format!("{}/{pre:?}{}", it.name, if all { "s" } else { "" });
                let bytes = nm.len() % 2 == 0;
                cs.add(nm, move |x| {
                    let ts: Vec<Tensor> = ins.iter().zip(&shapes).map(|((_, lo, hi), s)| x.tensor_in(s, *lo, *hi).0).collect();
                    let (f, ins) = (f.clone(), ins.clone());
                    let g = prog(move |t| {
                        let v = t.iter().enumerate().map(|(k, t)| view(t, &ins[k].0, if k == 0 || all { pre } else { Pre::None })).collect::<HoduResult<Vec<_>>>()?;
                        f(&v)
                    });
                    both(x, &ts, &g, bytes)
                });
            }
        }
    }
    constants(cs);
    random(cs);
}

/// tensors that exist outside the program become constants of the snapshot
fn constants(cs: &mut Cases) {
    for l in LAYS {
        for grad in [false, true] {
            cs.add(format!("constant/{l:?}/grad{grad}"), move |x| {
                let (t, _) = x.tensor(&[2, 3]);
                let w = input(x, &[2, 3], l, -2.0, 2.0, grad)?.t;
                both(x, &[t], &prog(move |t| Ok(vec![t[0].mul(&w)?, w.add(&t[0])?.sum(&[0], false)?])), true)
            });
        }
    }
    cs.add("constant/dropped", |x| {
        let (t, _) = x.tensor(&[2, 3]);
        both(x, &[t], &prog(|t| t[0].mul(&Tensor::full([3], 2.5f32)?).map(|v| vec![v])), false)
    });
    cs.add("constant/computed", |x| {
        let (t, _) = x.tensor(&[2, 3]);
        let (w, _) = x.tensor(&[3]);
        // computed from constants only, inside the program
        both(x, &[t], &prog(move |t| Ok(vec![t[0].mul(&w.mul_scalar(2.0f32)?.neg()?)?])), true)
    });
    cs.add("constant/index", |x| {
        let (t, _) = x.tensor(&[3, 2]);
        let (s, _) = x.tensor(&[2, 2]);
        let i = Tensor::from_slice(vec![2i32, 0], [2]).s()?;
        let j = Tensor::from_slice(vec![1i32, 0, 0, 2], [2, 2]).s()?;
        both(x, &[t, s], &prog(move |t| {
            Ok(vec![
                t[0].index_select(0, &i)?,
                t[0].index_put(0, &i, &t[1])?,
                t[0].gather(0, &j)?,
                t[0].scatter(0, &j, &t[1])?,
                t[0].scatter_add(0, &j, &t[1])?,
                t[0].scatter_max(-2, &j, &t[1])?,
                t[0].scatter_min(0, &j, &t[1])?,
                i.onehot(3, -1, DType::F32)?.matmul(&t[0])?,
            ])
        }), true)
    });
    cs.add("constant/types", |x| {
        let (t, _) = x.tensor(&[3]);
        let i = Tensor::from_slice(vec![3i32, 4, 12], [3]).s()?;
        let b = Tensor::from_slice(vec![true, false, true], [3]).s()?;
        let w = x.arr(&[3], -2.0, 2.0);
        let w = to_t64(&w);
        let e = Tensor::from_slice(vec![2.0f32, 1.0, 3.0], [3]).s()?;
        both(x, &[t], &prog(move |t| {
            Ok(vec![
                t[0].gt_scalar(0.5f32)?.logical_and(&b)?,
                i.shl_scalar(2)?.bitwise_and(&i.shr_scalar(1)?)?,
                i.bitwise_not()?.bitwise_xor(&i)?.bitwise_or(&i.shl(&i.rem_scalar(3)?)?)?,
                t[0].to_dtype(DType::F64)?.mul(&w)?,
                t[0].abs()?.pow(&e)?,
            ])
        }), true)
    });
    for tr in [false, true] {
        cs.add(format!("target/input/{tr}"), move |x| {
            let (t, _) = x.tensor(&[2, 3]);
            both(x, &[t], &prog(move |t| Ok(vec![if tr { t[0].t()? } else { t[0].clone() }])), true)
        });
    }
    // two programs captured one after the other, the second within the first's lifetime
    cs.add("two_boards", |x| {
        let (t, _) = x.tensor(&[2, 2]);
        let (u, _) = x.tensor(&[2, 2]);
        both(x, &[t.clone(), u.clone()], &prog(|t| Ok(vec![t[0].add(&t[1])?])), false)?;
        both(x, &[u, t], &prog(|t| Ok(vec![t[0].sub(&t[1])?])), false)
    });
}

/// generated programs of several operations over a pool of values
fn random(cs: &mut Cases) {
    for seed in 0..if cs.thorough { 400 } else { 60 } {
        cs.add(format!("program/{seed}"), move |x| {
            let shapes = [vec![2, 3], vec![3, 2], vec![3]];
            let ts: Vec<Tensor> = shapes.iter().map(|s| x.tensor_in(s, 0.5, 1.5).0).collect();
            let w = x.tensor_in(&[2, 3], 0.5, 1.5).0;
            both(x, &ts, &prog(move |t| {
                let mut r = Rng(seed as u64 * 77 + 5);
                let mut pool: Vec<Tensor> = t.to_vec();
                pool.push(w.clone());
                for _ in 0..6 + r.below(5) {
                    let a = pool[r.below(pool.len())].clone();
                    let s = a.shape().dims().to_vec();
                    let n = s.len();
                    let b = pool.iter().rev().find(|b| b.shape() == a.shape()).unwrap().clone();
                    let v = match r.below(13) {
                        0 => a.add(&b)?,
                        1 => a.mul(&b)?,
                        2 if n == 2 => a.t()?,
                        3 if n >= 1 && s[n - 1] > 1 => a.slice(-1, 1, None, 1)?,
                        4 if n >= 1 => a.sum(&[r.below(n) as i32], r.below(2) == 0)?,
                        5 if n == 2 => a.matmul(&b.t()?)?,
                        6 => a.unsqueeze(0)?,
                        7 if n == 1 => a.broadcast(vec![2, s[0]])?,
                        8 if n >= 1 => Tensor::concat(&[&a, &b], 0)?,
                        9 => a.flatten()?,
                        10 if n >= 1 => a.flip(&[0])?,
                        11 => a.sub(&b.mul_scalar(0.5f32)?)?,
                        12 if n >= 2 && s[0] > 1 => a.split(&[1, s[0] - 1], 0)?.pop().unwrap(),
                        _ => a.add_scalar(0.25f32)?,
                    };
                    if v.shape().dims().iter().product::<usize>() <= 24 && v.ndim() <= 4 {
                        pool.push(v);
                    }
                }
                let n = pool.len();
                Ok(vec![pool[n - 1].clone(), pool[n - 2 - r.below(2)].clone()])
            }), seed % 2 == 0)
        });
    }
}
