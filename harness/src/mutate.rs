//! Calls that are often just barely ill-formed: a well-formed call with a few parts changed.
use crate::*;

fn any_call(s: &mut Src, l: Lim) -> (Op, Vec<Sh>) {
    let kinds = [Kind::Const, Kind::Unary, Kind::Binary, Kind::Reduce, Kind::Softmax, Kind::Matrix, Kind::Move, Kind::Batch];
    let k = s.weighted(&[1, 1, 4, 4, 4, 5, 7, 5, 3]);
    if k < 8 {
        let c = gen::call(s, kinds[k], l, false);
        return (c.op, c.args.into_iter().map(|a| a.0).collect());
    }
    let sh = gen::shape(s, l);
    let d = gen::dim(s, &sh);
    match s.below(6) {
        0 => (Op::Mean(d), vec![sh]),
        1 => (Op::BatchMean, vec![sh]),
        2 => {
            let mut v = vec![sh.clone()];
            for _ in 0..s.below(3) {
                v.push(if s.chance(1, 4) { Sh::new(&[], 1) } else { sh.clone() });
            }
            (Op::SliceSum, v)
        }
        3 => (Op::BatchNorm(0.1, s.bool()), vec![sh.clone(), sh.with_batch(1), sh.with_batch(1)]),
        4 => (Op::LayerNorm(0.1), vec![sh.clone(), sh.with_batch(1), sh.with_batch(1)]),
        _ => (if s.bool() { Op::DropoutOff(0.5) } else { Op::DropoutAll(1.0) }, vec![sh]),
    }
}

fn bad_dim(s: &mut Src) -> u32 {
    match s.weighted(&[5, 3, 2]) {
        0 => s.below(8),
        1 => s.range(8, 10),
        _ => *s.pick(&[100, 1 << 31, u32::MAX - 1, u32::MAX]),
    }
}

fn bad_num(s: &mut Src, around: u32) -> u32 {
    match s.weighted(&[6, 3, 2, 2]) {
        0 => s.range(around.saturating_sub(2), around.saturating_add(2)),
        1 => s.below(around.saturating_add(3)),
        2 => 0,
        _ => *s.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1000, (1 << 31) + 1, u32::MAX / 2 + 2]),
    }
}

fn bad_ids(s: &mut Src, ids: &mut Vec<u32>, limit: u32) {
    match s.below(5) {
        0 => ids.clear(),
        1 => {
            ids.pop();
        }
        2 => ids.push(s.below(limit)),
        3 => {
            if !ids.is_empty() {
                let i = s.index(ids.len());
                ids[i] = bad_num(s, limit);
            }
        }
        _ => *ids = (0..s.range(1, 6)).map(|_| s.below(limit + 1)).collect(),
    }
}

pub fn other_shape(s: &mut Src, sh: &Sh) -> Sh {
    let mut d = sh.dims.clone();
    let mut b = sh.batch;
    match s.below(8) {
        0 => d.push(s.range(2, 3)),
        1 => {
            d.pop();
        }
        2 | 3 if !d.is_empty() => {
            let i = s.index(d.len());
            d[i] = s.range(1, d[i] + 1);
        }
        4 if d.len() >= 2 => {
            let i = s.index(d.len() - 1);
            d.swap(i, i + 1);
        }
        5 => d.clear(),
        6 if !d.is_empty() => {
            let i = s.index(d.len());
            d.insert(i, 1);
        }
        _ => b = s.range(1, b + 1),
    }
    d.truncate(8);
    Sh::new(&d, b)
}

/// the call and how many changes were made to a well-formed one
pub fn mutated(s: &mut Src, l: Lim) -> (Op, Vec<Sh>, u32) {
    let (mut op, mut a) = any_call(s, l);
    let n = s.weighted(&[2, 6, 2]) as u32;
    for _ in 0..n {
        let what = s.below(2);
        if what == 0 && !a.is_empty() {
            let i = s.index(a.len());
            a[i] = other_shape(s, &a[i]);
            continue;
        }
        let x = a.first().cloned().unwrap_or(Sh::new(&[], 1));
        match &mut op {
            Op::Sum(d) | Op::Max(d) | Op::Min(d) | Op::Logsumexp(d) | Op::LnSoftmax(d) | Op::Softmax(d) | Op::SoftmaxCE(d) | Op::Mean(d) => *d = bad_dim(s),
            Op::Broadcast(d, m) => {
                if s.bool() {
                    *d = bad_dim(s)
                } else {
                    *m = *s.pick(&[0u32, 1, 2, u32::MAX, 1 << 31, 1 << 20, 3])
                }
            }
            Op::SparseSoftmaxCE(ids, d) | Op::Pick(ids, d) => {
                if s.chance(1, 3) {
                    *d = bad_dim(s)
                } else {
                    bad_ids(s, ids, x.d(*d))
                }
            }
            Op::Slice(d, lo, up) => match s.below(4) {
                0 => *d = bad_dim(s),
                1 => *lo = bad_num(s, *up),
                2 => *up = bad_num(s, x.d(*d)),
                _ => std::mem::swap(lo, up),
            },
            Op::Split(d, m) => {
                if s.chance(1, 3) {
                    *d = bad_dim(s)
                } else {
                    *m = bad_num(s, x.d(*d)).min(1 << 20)
                }
            }
            Op::Concat(d) => match s.below(4) {
                0 => *d = bad_dim(s),
                1 => a.push(other_shape(s, &x)),
                2 => {
                    a.clear();
                }
                _ => {
                    if a.len() > 1 {
                        let i = s.index(a.len());
                        let b = a[i].batch;
                        a[i] = a[i].with_batch(s.range(1, b + 2));
                    }
                }
            },
            Op::BatchConcat | Op::SliceSum => {
                if s.chance(1, 3) {
                    a.clear()
                } else {
                    a.push(other_shape(s, &x))
                }
            }
            Op::Reshape(t) => *t = other_shape(s, t),
            Op::BatchSlice(lo, up) => match s.below(3) {
                0 => *lo = bad_num(s, *up),
                1 => *up = bad_num(s, x.batch),
                _ => std::mem::swap(lo, up),
            },
            Op::BatchSplit(m) => *m = bad_num(s, x.batch).min(1 << 20),
            Op::BatchPick(ids) => bad_ids(s, ids, x.batch),
            Op::TriL(k) | Op::TriU(k) => *k = bad_num(s, 3),
            _ => {
                if !a.is_empty() {
                    let i = s.index(a.len());
                    a[i] = other_shape(s, &a[i]);
                }
            }
        }
    }
    (op, a, n)
}

/// Some(shapes) accepted, None refused; outer None: not claimed either way
pub fn verdict(op: &Op, a: &[Sh]) -> Option<Option<Vec<Sh>>> {
    if let Some(n) = op.arity() {
        if n != a.len() {
            return None;
        }
    }
    if a.is_empty() {
        return Some(None);
    }
    let r: Vec<&Sh> = a.iter().collect();
    let v = op.shapes(&r);
    if let Op::SoftmaxCE(_) = op {
        // a scalar distribution for non-scalar scores is not documented
        if a[0].is_scalar() != a[1].is_scalar() {
            return None;
        }
    }
    if let Some(out) = &v {
        if out.iter().map(|s| s.size()).sum::<usize>() > 1 << 16 || out.len() > 4096 {
            return None;
        }
    }
    Some(v)
}
