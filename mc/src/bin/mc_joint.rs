//! C08-C10: limits, mimics, position vectors.
use k::joint::Range;
use k::{Chain, Error, Node, SerialChain};
use kmc::ensure;
use kmc::fw::*;
use kmc::model::*;
use kmc::real::*;

// ---------------------------------------------------------------- C08

fn limit_table<T: Sc>() -> Vec<Option<(T, T)>> {
    let f = T::of;
    let inf = f(f64::INFINITY);
    vec![
        None,
        Some((f(-1.0), f(1.0))),
        Some((f(0.5), f(2.0))),
        Some((f(-3.0), f(-1.25))),
        Some((f(0.0), f(0.0))),
        Some((f(0.3), f(0.3))),
        Some((-inf, f(0.7))),
        Some((f(-0.2), inf)),
        Some((-inf, inf)),
        Some((f(0.0), f(3.0))),
        Some((f(-0.1), f(0.0))),
        Some((f(1e20), f(1e30))),
        Some((f(-1e-30), f(1e-30))),
        Some((f(1.0), f(1.0).next_up())),
    ]
}
/// the interesting positions for one interval
fn position_table<T: Sc>(l: &Option<(T, T)>) -> Vec<T> {
    let f = T::of;
    let inf = f(f64::INFINITY);
    let mut v = vec![f(0.0), f(-0.0), f(0.1), f(-0.1), f(0.6), f(1e6), f(-1e6), f(1e25), f(-1e-35), inf, -inf, f(f64::NAN)];
    if let Some((lo, hi)) = l {
        for x in [*lo, *hi] {
            v.extend([x, x.next_up(), x.next_down(), x + f(0.01), x - f(0.01), x * f(2.0), -x]);
        }
        if lo.d().is_finite() && hi.d().is_finite() {
            v.push((*lo + *hi) / f(2.0));
        } else {
            v.push(f(0.25));
        }
    } else {
        v.extend([f(3.0); 15]);
    }
    v
}
const N_POS: usize = 12 + 15;
/// how a command reaches the joint
#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    NodeSet,
    NodeClamp,
    JointSet,
    JointClamp,
    ChainSet,
    ChainClamp,
    SerialSet,
    SerialClamp,
    CloneSet,
}
const VIAS: [Via; 9] = [
    Via::NodeSet,
    Via::NodeClamp,
    Via::JointSet,
    Via::JointClamp,
    Via::ChainSet,
    Via::ChainClamp,
    Via::SerialSet,
    Via::SerialClamp,
    Via::CloneSet,
];
fn same<T: Sc>(a: T, b: T) -> bool {
    a == b || (a != a && b != b)
}
fn check_err<T: Sc>(e: &Error, name: &str, q: T, l: &(T, T)) -> Result<(), String> {
    match e {
        Error::OutOfLimitError {
            joint_name,
            position,
            max_limit,
            min_limit,
        } => {
            ensure!(joint_name == name, "error names joint '{}' instead of '{}'", joint_name, name);
            if q == q {
                ensure!(*position == q.d(), "error reports position {} instead of {}", position, q.d());
            }
            ensure!(
                *min_limit == l.0.d() && *max_limit == l.1.d(),
                "error reports limits {} {} instead of {} {}",
                min_limit,
                max_limit,
                l.0.d(),
                l.1.d()
            );
            Ok(())
        }
        e => Err(format!("wrong error {:?}", e)),
    }
}
fn nearest<T: Sc>(q: T, l: &Option<(T, T)>) -> T {
    match l {
        None => q,
        Some((lo, hi)) => {
            if q < *lo {
                *lo
            } else if q > *hi {
                *hi
            } else {
                q
            }
        }
    }
}
fn admissible<T: Sc>(q: T, l: &Option<(T, T)>) -> bool {
    match l {
        None => true,
        Some((lo, hi)) => q >= *lo && q <= *hi,
    }
}

fn c08_single<T: Sc>(mut d: Dec, ctx: &mut Ctx) -> Result<(), String> {
    let lims = limit_table::<T>();
    let l = *d.pick(&lims);
    let table = position_table(&l);
    let q = table[d.take(N_POS)];
    let kind = [Kind::Fixed, Kind::Rot([0., 1., 0.]), Kind::Lin([1., 2., 0.5])][d.take(3)];
    let via = *d.pick(&VIAS);
    // where the joint is before: the bounds, or the middle
    let start = match (d.take(3), l) {
        (_, None) => T::of(0.4),
        (0, Some((lo, hi))) if lo.d().is_finite() && hi.d().is_finite() => (lo + hi) / T::of(2.),
        (1, Some((lo, _))) if lo.d().is_finite() => lo,
        (_, Some((_, hi))) if hi.d().is_finite() => hi,
        (_, Some((lo, _))) if lo.d().is_finite() => lo,
        _ => T::of(-0.7),
    };
    ctx.note(|| format!("{} {:?} limits {:?} start {:?} command {:?} via {:?}", T::NAME, kind, l, start, q, via));
    let clamp = matches!(via, Via::NodeClamp | Via::JointClamp | Via::ChainClamp | Via::SerialClamp);
    if clamp && q != q {
        return Ok(()); // NaN has no nearest admissible value
    }
    let mut j = k::Joint::new("the joint", jt::<T>(&kind));
    j.limits = l.map(|(a, b)| Range::new(a, b));
    if kind.movable() {
        j.set_joint_position_unchecked(start);
    }
    let (res, after): (Result<(), Error>, Option<T>) = match via {
        Via::JointSet => {
            let r = j.set_joint_position(q);
            (r, j.joint_position())
        }
        Via::JointClamp => {
            j.set_joint_position_clamped(q);
            (Ok(()), j.joint_position())
        }
        Via::NodeSet => {
            let n = Node::new(j);
            let r = n.set_joint_position(q);
            (r, n.joint_position())
        }
        Via::NodeClamp => {
            let n = Node::new(j);
            n.set_joint_position_clamped(q);
            (Ok(()), n.joint_position())
        }
        Via::CloneSet => {
            let n = Node::new(j.clone());
            let c = Chain::from_root(n).clone();
            let n = c.find("the joint").unwrap();
            let r = n.set_joint_position(q);
            (r, n.joint_position())
        }
        _ => {
            let n = Node::new(j);
            let c = Chain::from_root(n.clone());
            let dof = if kind.movable() { 1 } else { 0 };
            let v = vec![q; dof];
            let r = match via {
                Via::ChainSet => c.set_joint_positions(&v),
                Via::ChainClamp => {
                    c.set_joint_positions_clamped(&v);
                    Ok(())
                }
                Via::SerialSet => SerialChain::from_end(&n).set_joint_positions(&v),
                _ => {
                    SerialChain::from_end(&n).set_joint_positions_clamped(&v);
                    Ok(())
                }
            };
            (r, n.joint_position())
        }
    };
    if !kind.movable() {
        ensure!(after.is_none(), "a fixed joint has position {:?}", after);
        if matches!(via, Via::JointSet | Via::NodeSet | Via::CloneSet) {
            ensure!(res.is_err(), "a fixed joint accepted a position");
            ctx.count("fixed refused");
        } else {
            ensure!(res.is_ok(), "a fixed joint makes {:?} fail: {:?}", via, res);
        }
    } else {
        let after = after.ok_or("a movable joint has no position")?;
        if clamp {
            ensure!(
                same(after, nearest(q, &l)),
                "clamped command {:?} stored {:?} instead of {:?}",
                q,
                after,
                nearest(q, &l)
            );
            ctx.count("clamped");
        } else if admissible(q, &l) {
            ensure!(res.is_ok(), "admissible position {:?} refused: {:?}", q, res);
            ensure!(same(after, q), "position {:?} stored as {:?}", q, after);
            ctx.count("accepted");
        } else {
            match res {
                Ok(()) => return Err(format!("position {:?} outside of {:?} accepted", q, l)),
                Err(e) => check_err(&e, "the joint", q, &l.unwrap())?,
            }
            ensure!(same(after, start), "a refused command moved the joint from {:?} to {:?}", start, after);
            ctx.count("refused");
        }
        if admissible(start, &l) && q == q {
            ensure!(admissible(after, &l), "the joint left its limits: {:?}", after);
        }
    }
    // the range itself
    if let Some((a, b)) = l {
        let r = Range::new(a, b);
        ensure!(r.is_valid(q) == admissible(q, &l), "is_valid({:?})", q);
        if q == q {
            ensure!(same(r.clamp(q), nearest(q, &l)), "clamp({:?}) = {:?}", q, r.clamp(q));
        }
        let r2: Range<T> = (a..=b).into();
        ensure!(r2.min == a && r2.max == b, "range from {:?}..={:?}", a, b);
    }
    ctx.state_hash(hash_of(&[l.map_or(1, |x| x.0.bits() ^ x.1.bits().rotate_left(7)), after.map_or(2, |x| x.bits())]));
    ctx.step();
    Ok(())
}

#[derive(Clone, Debug)]
enum Cmd {
    Set(usize, f64),
    Clamp(usize, f64),
    VecSet(View, Vec<f64>),
    VecClamp(View, Vec<f64>),
    Retarget(usize, usize, f64, f64),
}
/// Executes a command on both sides and checks the results
fn exec<T: Sc>(c: &Cmd, m: &mut Model, nodes: &[Node<T>], ctx: &mut Ctx) -> Result<(), String> {
    ctx.step();
    let old = m.clone();
    match c {
        Cmd::Set(i, q) => {
            let r = nodes[*i].set_joint_position(T::of(*q));
            if m.nodes[*i].mimic.is_some() {
                // addressed to a follower: nothing changes (the result is not specified)
                ctx.count("to a follower");
            } else {
                match m.checked(*i, *q) {
                    Some(w) => {
                        ensure!(r.is_ok(), "admissible command refused: {:?}", r);
                        m.apply(&w);
                        ctx.count(if w.len() > 1 { "accepted with followers" } else { "accepted" });
                    }
                    None => {
                        ensure!(r.is_err(), "inadmissible command accepted");
                        ctx.count("refused");
                    }
                }
            }
        }
        Cmd::Clamp(i, q) => {
            nodes[*i].set_joint_position_clamped(T::of(*q));
            if m.nodes[*i].mimic.is_none() {
                let w = m.clamped(*i, *q);
                m.apply(&w);
                ctx.count("clamped");
            }
        }
        Cmd::VecClamp(v, qs) => {
            let c = view(nodes, *v);
            let mov: Vec<usize> = indices(nodes, &c).into_iter().filter(|i| m.nodes[*i].kind.movable()).collect();
            let w: Vec<T> = qs[..mov.len()].iter().map(|x| T::of(*x)).collect();
            c.set_joint_positions_clamped(&w);
            for (k, i) in mov.iter().enumerate() {
                if m.nodes[*i].mimic.is_none() {
                    let w = m.clamped(*i, qs[k]);
                    m.apply(&w);
                }
            }
            ctx.count("vector clamped");
        }
        Cmd::VecSet(v, qs) => {
            let c = view(nodes, *v);
            let mov: Vec<usize> = indices(nodes, &c).into_iter().filter(|i| m.nodes[*i].kind.movable()).collect();
            let w: Vec<T> = qs[..mov.len()].iter().map(|x| T::of(*x)).collect();
            let r = c.set_joint_positions(&w);
            let mut all = true;
            let mut writes = vec![];
            for (k, i) in mov.iter().enumerate() {
                if m.nodes[*i].mimic.is_none() {
                    match m.checked(*i, qs[k]) {
                        Some(w) => writes.push(w),
                        None => all = false,
                    }
                }
            }
            ensure!(r.is_ok() == all, "vector command {:?}: {:?}", qs, r);
            if all {
                for w in writes {
                    m.apply(&w);
                }
                ctx.count("vector accepted");
            } else {
                // not claimed how many of the other joints have moved, but each driver with all of
                // its followers, and those that are refused not at all
                for w in writes {
                    let moved = w.iter().all(|(i, q)| {
                        let got = nodes[*i].joint_position().unwrap().d();
                        (got - q).abs() <= T::TOL / 300. * (1. + q.abs())
                    });
                    if moved {
                        m.apply(&w);
                    }
                }
                ctx.count("vector refused");
            }
        }
        Cmd::Retarget(i, d, mu, o) => {
            // no cycles
            let mut c = Some(*d);
            while let Some(x) = c {
                if x == *i {
                    return Ok(());
                }
                c = m.nodes[x].mimic.map(|t| t.0);
            }
            nodes[*i].set_mimic_parent(&nodes[*d], k::joint::Mimic::new(T::of(*mu), T::of(*o)));
            m.nodes[*i].mimic = Some((*d, *mu, *o));
            ctx.count("new driver");
        }
    }
    for (i, n) in m.nodes.iter().enumerate() {
        let got = nodes[i].joint_position();
        if !n.kind.movable() {
            ensure!(got.is_none(), "fixed joint {} has a position", i);
            continue;
        }
        let got = got.ok_or("no position")?.d();
        ensure!(
            (got - n.q).abs() <= T::TOL / 300. * (1. + n.q.abs()) || got == n.q,
            "joint {} is at {} but should be at {} (it was at {})",
            i,
            got,
            n.q,
            old.nodes[i].q
        );
        if let Some((lo, hi)) = n.limits {
            if old.nodes[i].q >= lo && old.nodes[i].q <= hi {
                ensure!(got >= lo && got <= hi, "joint {} left its limits: {}", i, got);
            }
        }
    }
    ctx.state_hash(m.key());
    Ok(())
}

fn c08_seq_model() -> Model {
    let mut m = tree(&[None, Some(0), Some(1), Some(1)], &[1, 0, 2, 1], 0);
    let l = [Some((-1.0, 0.5)), None, Some((0.25, 2.0)), None];
    let q = [0.0, 0.0, 0.25, 4.0];
    for i in 0..4 {
        m.nodes[i].limits = l[i];
        m.nodes[i].q = q[i];
    }
    m
}
fn c08_alphabet() -> Vec<Cmd> {
    let mut v = vec![];
    for i in 0..4 {
        for q in [-1.5, -1.0, 0.25, 2.0, 7.0] {
            v.push(Cmd::Set(i, q));
        }
    }
    for i in [0usize, 1, 2] {
        for q in [-3.0, 0.3, 9.0] {
            v.push(Cmd::Clamp(i, q));
        }
    }
    for q in [[0.5, 0.25, 1.0], [0.5, 0.5, 3.0], [-2.0, 1.0, 1.0], [9.0, -9.0, 9.0]] {
        v.push(Cmd::VecSet(View::Tree(0), q.to_vec()));
        v.push(Cmd::VecClamp(View::Tree(0), q.to_vec()));
        v.push(Cmd::VecSet(View::End(3), q.to_vec()));
    }
    v
}
fn seq_space<T: Sc>(name: &str, m: Model, alpha: Vec<Cmd>, depth: u32) -> Space {
    let n = alpha.len() as u64;
    space(
        name,
        n.pow(depth),
        &format!("all sequences of {} commands out of {} ({})", depth, n, T::NAME),
        move |i, ctx| {
            let mut d = Dec(i);
            let mut m = m.clone();
            ctx.note(|| m.describe());
            let nodes = build::<T>(&m);
            for _ in 0..depth {
                let c = d.pick(&alpha).clone();
                ctx.note(|| format!("{:?}", c));
                exec(&c, &mut m, &nodes, ctx).map_err(|e| format!("after {:?}: {}", c, e))?;
            }
            Ok(())
        },
    )
}
/// what one does with a joint that is not part of a robot (yet)
#[derive(Clone, Copy, Debug)]
enum JOp {
    Limits(usize),
    Set(f64),
    Clamp(f64),
    Type(usize),
    Copy,
    /// it becomes part of a robot, is moved there, and is taken out again
    Served(f64),
}
const J_OPS: [JOp; 17] = [
    JOp::Limits(0),
    JOp::Limits(1),
    JOp::Limits(2),
    JOp::Limits(3),
    JOp::Limits(4),
    JOp::Set(-2.0),
    JOp::Set(0.25),
    JOp::Set(0.5),
    JOp::Set(1.5),
    JOp::Clamp(-2.0),
    JOp::Clamp(0.3),
    JOp::Clamp(1.5),
    JOp::Type(0),
    JOp::Type(1),
    JOp::Copy,
    JOp::Served(0.4),
    JOp::Served(9.0),
];
const J_LIMITS: [Option<(f64, f64)>; 5] =
    [None, Some((-1.0, 1.0)), Some((0.5, 0.5)), Some((f64::NEG_INFINITY, 0.25)), Some((0.25, 2.0))];
/// limits and type of a joint are public: the last ones count
fn c08_joint<T: Sc>(seq: &[JOp], ctx: &mut Ctx) -> Result<(), String> {
    let kinds = [Kind::Rot([0., 0., 1.]), Kind::Lin([1., 0., 0.])];
    let mut j = k::Joint::new("the joint", jt::<T>(&kinds[0]));
    let (mut q, mut l): (T, Option<(T, T)>) = (T::of(0.), None);
    let judge = |what: &str, r: Result<(), Error>, x: T, q: &mut T, l: &Option<(T, T)>| -> Result<(), String> {
        if admissible(x, l) {
            ensure!(r.is_ok(), "{}: admissible position {:?} refused: {:?}", what, x, r);
            *q = x;
        } else {
            match r {
                Ok(()) => return Err(format!("{}: position {:?} outside of {:?} accepted", what, x, l)),
                Err(e) => check_err(&e, "the joint", x, &l.unwrap())?,
            }
        }
        Ok(())
    };
    for op in seq {
        match op {
            JOp::Limits(i) => {
                l = J_LIMITS[*i].map(|(a, b)| (T::of(a), T::of(b)));
                j.limits = l.map(|(a, b)| Range::new(a, b));
            }
            JOp::Set(x) => {
                let r = j.set_joint_position(T::of(*x));
                judge("joint", r, T::of(*x), &mut q, &l)?;
            }
            JOp::Clamp(x) => {
                j.set_joint_position_clamped(T::of(*x));
                q = nearest(T::of(*x), &l);
            }
            JOp::Type(i) => j.joint_type = jt(&kinds[*i]),
            JOp::Copy => j = j.clone(),
            JOp::Served(x) => {
                let n = Node::new(j.clone());
                let r = n.set_joint_position(T::of(*x));
                judge("node", r, T::of(*x), &mut q, &l)?;
                n.set_joint_position_clamped(T::of(-*x));
                q = nearest(T::of(-*x), &l);
                ensure!(n.joint_position().map_or(false, |a| same(a, q)), "the node is at {:?} instead of {:?}", n.joint_position(), q);
                j = n.joint().clone();
            }
        }
        ensure!(j.joint_position().map_or(false, |a| same(a, q)), "after {:?}: the joint is at {:?} instead of {:?}", op, j.joint_position(), q);
        ctx.step();
    }
    ctx.state_hash(hash_of(&[q.bits(), l.map_or(0, |x| x.0.bits() ^ x.1.bits().rotate_left(9))]));
    Ok(())
}
const C08_SIZES: [usize; 12] = [9, 16, 17, 32, 33, 64, 65, 129, 255, 256, 257, 300];
/// vectors for many joints, one of which is at, next to or beyond a limit
fn c08_large<T: Sc>(mut d: Dec, ctx: &mut Ctx) -> Result<(), String> {
    let n = *d.pick(&C08_SIZES);
    let shape = d.take(3);
    let at = d.take(8);
    let (how, off, via) = (d.take(2), d.take(5), d.take(3));
    let limits = |i: usize| match i % 4 {
        0 => None,
        1 => Some((-1.0, 1.0 + 0.01 * i as f64)),
        2 => Some((-0.5 - 0.01 * i as f64, 0.75)),
        _ => Some((f64::NEG_INFINITY, 0.5 + 0.01 * i as f64)),
    };
    let at = [0, 1, n / 4, n / 2, n - 3, n - 2, n - 1, n / 3][at];
    // the vector is admissible, but for one joint
    let mut v: Vec<f64> = (0..n).map(|i| 0.4 - 0.001 * i as f64).collect();
    let (lo, hi) = limits(at).unwrap_or((-0.25, 0.25));
    v[at] = [hi, hi + 1e-5, hi + 100., if lo.is_finite() { lo - 1e-5 } else { -1e6 }, if lo.is_finite() { lo } else { -3.0 }][off];
    let v: Vec<T> = v.into_iter().map(T::of).collect();
    let lim: Vec<Option<(T, T)>> = (0..n).map(|i| limits(i).map(|(a, b)| (T::of(a), T::of(b)))).collect();
    ctx.note(|| format!("{} {} joints, shape {}, joint {} to {:?} of {:?}, how {} via {}", T::NAME, n, shape, at, v[at], lim[at], how, via));
    let nodes: Vec<Node<T>> = (0..n)
        .map(|i| {
            let mut j = k::Joint::new(&format!("j{}", i), jt::<T>(&if i % 3 == 1 { Kind::Lin([0., 1., 0.]) } else { Kind::Rot([1., 0., 0.]) }));
            j.limits = lim[i].map(|(a, b)| Range::new(a, b));
            Node::new(j)
        })
        .collect();
    for i in 1..n {
        nodes[i].set_parent(&nodes[[i - 1, 0, (i - 1) / 2][shape]]);
    }
    let c = match via {
        0 => Chain::from_nodes(nodes.clone()),
        1 if shape == 0 => SerialChain::from_end(&nodes[n - 1]).unwrap(),
        1 => Chain::from_nodes(nodes.iter().rev().cloned().collect()),
        _ => Chain::from_root(nodes[0].clone()),
    };
    let order: Vec<usize> = c.iter().map(|x| nodes.iter().position(|y| y == x).unwrap()).collect();
    ensure!(order.len() == n, "{} of {} nodes", order.len(), n);
    let w: Vec<T> = order.iter().map(|i| v[*i]).collect();
    let ok = admissible(v[at], &lim[at]);
    if how == 0 {
        let r = c.set_joint_positions(&w);
        if ok {
            ensure!(r.is_ok(), "admissible positions refused: {:?}", r);
        } else {
            match r {
                Ok(()) => return Err(format!("position {:?} of joint {} outside of {:?} accepted", v[at], at, lim[at])),
                Err(e) => check_err(&e, &format!("j{}", at), v[at], &lim[at].unwrap())?,
            }
        }
    } else {
        c.set_joint_positions_clamped(&w);
    }
    for i in 0..n {
        let q = nodes[i].joint_position().ok_or("no position")?;
        ensure!(admissible(q, &lim[i]), "joint {} left its limits: {:?}", i, q);
        if how == 1 {
            ensure!(same(q, nearest(v[i], &lim[i])), "joint {} is at {:?} instead of {:?}", i, q, nearest(v[i], &lim[i]));
        } else if ok {
            ensure!(same(q, v[i]), "joint {} is at {:?} instead of {:?}", i, q, v[i]);
        } else if i == at {
            ensure!(same(q, T::of(0.)), "the refused command moved joint {} to {:?}", i, q);
        }
    }
    ctx.state();
    ctx.step();
    Ok(())
}
fn c08(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let len = prod(&[limit_table::<f64>().len(), N_POS, 3, VIAS.len(), 3]);
    Check {
        id: "C08",
        spaces: vec![
            space("single_f64", len, "interval x position (bounds, neighbours, infinities, NaN) x kind x entry point x start", |i, c| {
                c08_single::<f64>(Dec(i), c)
            }),
            space("single_f32", len, "the same in f32", |i, c| c08_single::<f32>(Dec(i), c)),
            seq_space::<f64>("seq_f64", c08_seq_model(), c08_alphabet(), if q { 3 } else { 4 }),
            seq_space::<f32>("seq_f32", c08_seq_model(), c08_alphabet(), if q { 3 } else { 4 }),
            space("joint", (J_OPS.len() as u64).pow(if q { 4 } else { 5 }), "joints outside of a robot: new limits, other types, copies, and former nodes, in sequences of 4 (5)", move |i, c| {
                let mut d = Dec(i);
                let seq: Vec<JOp> = (0..if q { 4 } else { 5 }).map(|_| *d.pick(&J_OPS)).collect();
                c.note(|| format!("{:?}", seq));
                c08_joint::<f64>(&seq, c)?;
                c08_joint::<f32>(&seq, c).map_err(|e| format!("f32: {}", e))
            }),
            space(
                "mixed",
                (others().len() as u64).pow(if q { 3 } else { 4 }) * 4 * 2 * 4,
                "all sequences of 3 (4) other operations (attaching, detaching, links, origins, updates, copies) on robots of 3 joints, then 19 commands",
                move |i, c| {
                    let depth = if q { 3 } else { 4 };
                    c08_mixed::<f64>(i, depth, c)?;
                    c08_mixed::<f32>(i, depth, c).map_err(|e| format!("f32: {}", e))
                },
            ),
            space("large", prod(&[C08_SIZES.len(), 3, 8, 2, 5, 3]), "robots of 9 to 300 joints: vectors with one joint at, next to or beyond its limit", |i, c| {
                c08_large::<f64>(Dec(i), c)?;
                c08_large::<f32>(Dec(i), c)
            }),
        ],
        assumptions: vec!["a clamped NaN is not specified", "a whole-chain command that is refused may have moved some of its joints (not claimed)"],
    }
}

// ---------------------------------------------------------------- C09

/// every acyclic assignment of drivers to n joints
fn forests(n: usize) -> Vec<Vec<Option<usize>>> {
    let mut out = vec![];
    for code in 0..(n as u64 + 1).pow(n as u32) {
        let mut d = Dec(code);
        let f: Vec<Option<usize>> = (0..n)
            .map(|_| {
                let x = d.take(n + 1);
                if x == n {
                    None
                } else {
                    Some(x)
                }
            })
            .collect();
        let ok = (0..n).all(|i| {
            let mut c = Some(i);
            let mut k = 0;
            while let Some(x) = c {
                c = f[x];
                k += 1;
                if k > n {
                    return false;
                }
            }
            true
        });
        if ok {
            out.push(f);
        }
    }
    out
}
/// dyadic numbers: driver arithmetic is exact in both scalar types
const MULS: [(f64, f64); 4] = [(1.0, 0.0), (-2.0, 0.5), (0.5, -0.25), (0.0, 1.0)];
const LIMS: [Option<(f64, f64)>; 4] = [None, Some((-1.0, 1.0)), Some((-0.25, 2.5)), Some((-8.0, 8.0))];

fn c09_model(n: usize, shape: usize, f: &[Option<usize>], mut muls: u64, mut lims: u64) -> Model {
    let sh: Vec<Option<usize>> = (0..n)
        .map(|i| if i == 0 { None } else { [Some(i - 1), Some(0)][shape] })
        .collect();
    let kinds: Vec<u8> = (0..n).map(|i| 1 + (i % 2) as u8).collect();
    let mut m = tree(&sh, &kinds, 0);
    for i in 0..n {
        m.nodes[i].q = 0.0;
        m.nodes[i].limits = LIMS[(lims % 4) as usize];
        lims /= 4;
        if let Some(d) = f[i] {
            let (mu, o) = MULS[(muls % 4) as usize];
            m.nodes[i].mimic = Some((d, mu, o));
        }
        muls /= 4;
    }
    m
}
fn c09_alphabet(n: usize) -> Vec<Cmd> {
    let mut v = vec![];
    for i in 0..n {
        for q in [0.5, -1.0, 1.5] {
            v.push(Cmd::Set(i, q));
        }
        // more digits than anything is rounded to
        v.push(Cmd::Clamp(i, -0.7123456789));
        v.push(Cmd::Clamp(i, if i % 2 == 0 { 12.0 } else { -0.75 }));
    }
    v.push(Cmd::Set(0, 6.0));
    let a = [0.2512345678, -0.5, 0.7387654321, 0.5, -0.25];
    let b = [1.0, 0.5, -0.25, 2.0, 0.5];
    v.push(Cmd::VecSet(View::Tree(0), a.to_vec()));
    v.push(Cmd::VecSet(View::End(n - 1), b.to_vec()));
    v.push(Cmd::VecClamp(View::Tree(0), b.to_vec()));
    v.push(Cmd::VecClamp(View::End(n - 1), vec![-4.0, 4.0, -4.0, 4.0, 1.0]));
    // driver given later
    v.push(Cmd::Retarget(n - 1, 0, 0.5, 0.25));
    v.push(Cmd::Retarget(0, n - 1, -1.0, 0.0));
    v
}
fn c09_space(n: usize, depth: u32, muls_full: bool, lim_codes: Vec<u64>) -> Space {
    let fs = forests(n);
    let mcount = if muls_full { 4u64.pow(n as u32) } else { 4 };
    let alpha = c09_alphabet(n);
    let an = alpha.len() as u64;
    let len = fs.len() as u64 * 2 * mcount * lim_codes.len() as u64 * an.pow(depth);
    space(
        &format!("mimic{}d{}", n, depth),
        len,
        &format!(
            "all {} driver assignments of {} joints x 2 trees x {} multiplier patterns x {} limit patterns x all {}-sequences of {} commands",
            fs.len(), n, mcount, lim_codes.len(), depth, an
        ),
        move |i, ctx| {
            let mut d = Dec(i);
            let seq: Vec<usize> = (0..depth).map(|_| d.take(an as usize)).collect();
            let f = d.pick(&fs).clone();
            let shape = d.take(2);
            let mc = d.take(mcount as usize) as u64;
            // unless all patterns are run: rotations of one mixed pattern
            let muls = if muls_full {
                mc
            } else {
                (0..n as u64).map(|k| ((k + mc) % 4) * 4u64.pow(k as u32)).sum()
            };
            let lim = *d.pick(&lim_codes);
            let mut m = c09_model(n, shape, &f, muls, lim);
            ctx.note(|| m.describe());
            let nodes = build::<f64>(&m);
            for s in &seq {
                let c = &alpha[*s];
                ctx.note(|| format!("{:?}", c));
                exec(c, &mut m, &nodes, ctx).map_err(|e| format!("after {:?}: {}", c, e))?;
            }
            Ok(())
        },
    )
}
// ---------------------------------------------------------------- histories of everything else

/// what else one does with a robot: none of it moves a joint or changes what may move it
#[derive(Clone, Copy, Debug)]
enum Other {
    Attach(usize, usize),
    Detach(usize),
    Link(usize, usize),
    Unlink(usize),
    Origin(usize, usize),
    Refresh(View),
    Copy,
}
fn others() -> Vec<Other> {
    let mut v = vec![];
    for i in 0..3 {
        for p in 0..3 {
            if i != p {
                v.push(Other::Attach(i, p));
            }
        }
        v.push(Other::Detach(i));
        v.push(Other::Link(i, 1 + i));
    }
    v.extend([
        Other::Unlink(1),
        Other::Origin(1, 6),
        Other::Origin(2, 0),
        Other::Refresh(View::Tree(0)),
        Other::Refresh(View::End(2)),
        Other::Copy,
    ]);
    v
}
/// a robot is changed otherwise, then its joints are commanded; after each command all joints are compared
fn mixed<T: Sc>(m: &mut Model, ops: &[Other], cmds: &[Cmd], ctx: &mut Ctx) -> Result<(), String> {
    let nodes = build::<T>(m);
    for op in ops {
        match *op {
            Other::Attach(i, p) => {
                if !m.subtree(i).contains(&p) {
                    nodes[i].set_parent(&nodes[p]);
                    m.nodes[i].parent = Some(p);
                }
            }
            Other::Detach(i) => {
                if let Some(p) = m.nodes[i].parent.take() {
                    nodes[i].remove_parent(&nodes[p]);
                }
            }
            Other::Link(i, code) => {
                m.nodes[i].link = palette_link(i, code);
                nodes[i].set_link(m.nodes[i].link.as_ref().map(link));
            }
            Other::Unlink(i) => nodes[i].set_link(None),
            Other::Origin(i, o) => nodes[i].set_origin(iso(&ORGS[o])),
            Other::Refresh(v) => {
                let c = view(&nodes, v);
                c.update_transforms();
                c.update_velocities();
                c.update_link_transforms();
                let _ = k::center_of_mass(&c);
                let _ = format!("{}", c);
            }
            Other::Copy => {
                // copies live their own lives
                for x in nodes.iter() {
                    let mut j = x.joint().clone();
                    j.limits = Some(Range::new(T::of(-9.0), T::of(9.0)));
                    let y = Node::new(j);
                    y.set_joint_position_clamped(T::of(7.0));
                }
            }
        }
        for (i, n) in m.nodes.iter().enumerate() {
            let want = n.kind.movable().then(|| T::of(n.q));
            ensure!(nodes[i].joint_position() == want, "{:?} moved joint {} to {:?}", op, i, nodes[i].joint_position());
            ensure!(
                nodes[i].mimic_parent().map(|d| index_of(&nodes, &d)) == n.mimic.map(|t| t.0),
                "{:?} gave joint {} another driver",
                op,
                i
            );
        }
        ctx.step();
    }
    for c in cmds {
        ctx.note(|| format!("{:?}", c));
        exec(c, m, &nodes, ctx).map_err(|e| format!("after {:?}: {}", c, e))?;
    }
    Ok(())
}
fn mixed_cmds() -> Vec<Cmd> {
    let mut v = vec![Cmd::VecSet(View::Tree(0), vec![0.25, 0.5, -0.25])];
    for i in 0..3 {
        v.push(Cmd::Set(i, 0.5));
        v.push(Cmd::Clamp(i, -0.7123456789));
        v.push(Cmd::Set(i, 1.5));
        v.push(Cmd::Clamp(i, 12.0));
        v.push(Cmd::VecClamp(View::End(i), vec![-4.0, 0.125, -4.0]));
        v.push(Cmd::VecSet(View::Tree(i), vec![0.75, -0.5, 2.0]));
    }
    v
}
/// limits survive everything
fn c08_mixed<T: Sc>(i: u64, depth: u32, ctx: &mut Ctx) -> Result<(), String> {
    let mut d = Dec(i);
    let all = others();
    let ops: Vec<Other> = (0..depth).map(|_| *d.pick(&all)).collect();
    let kinds = [[1u8, 2, 1], [2, 0, 1], [0, 1, 2], [1, 1, 0]][d.take(4)];
    let mut m = tree(&[[None, Some(0), Some(1)], [None, Some(0), Some(0)]][d.take(2)], &kinds, 0);
    let lims = d.take(4);
    for (k, n) in m.nodes.iter_mut().enumerate() {
        n.q = 0.0;
        n.mimic = None;
        n.limits = if n.kind.movable() { LIMS[(k + lims) % 4] } else { None };
    }
    ctx.note(|| format!("{} {:?}", m.describe(), ops));
    let cmds: Vec<Cmd> = mixed_cmds()
        .into_iter()
        .filter(|c| !matches!(c, Cmd::Set(i, _) | Cmd::Clamp(i, _) if !m.nodes[*i].kind.movable()))
        .collect();
    mixed::<T>(&mut m, &ops, &cmds, ctx)
}
/// followers survive everything
fn c09_mixed<T: Sc>(i: u64, depth: u32, ctx: &mut Ctx) -> Result<(), String> {
    let mut d = Dec(i);
    let all = others();
    let ops: Vec<Other> = (0..depth).map(|_| *d.pick(&all)).collect();
    let fs = forests(3);
    let f = d.pick(&fs).clone();
    let mc = d.take(4) as u64;
    let muls = (0..3u64).map(|k| ((k + mc) % 4) * 4u64.pow(k as u32)).sum();
    let shape = d.take(2);
    let mut m = c09_model(3, shape, &f, muls, [0, 22, 62][d.take(3)]);
    ctx.note(|| format!("{} {:?}", m.describe(), ops));
    mixed::<T>(&mut m, &ops, &mixed_cmds(), ctx)
}
/// many followers: one behind the other or all of one joint, the driver first or last
fn c09_large<T: Sc>(i: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut d = Dec(i);
    let n = [9usize, 20, 40, 70, 140, 300][d.take(6)];
    let shape = d.take(3);
    let rel = d.take(5);
    let lim = d.take(4);
    let sh: Vec<Option<usize>> = (0..n)
        .map(|i| if i == 0 { None } else { Some([i - 1, 0, (i - 1) / 2][shape]) })
        .collect();
    let kinds: Vec<u8> = (0..n).map(|i| 1 + (i % 2) as u8).collect();
    let mut m = tree(&sh, &kinds, 0);
    let muls = [(1.0, 0.015625), (-1.0, 0.25), (1.0, -0.03125), (-1.0, 0.0)];
    let mut top = 0;
    for k in 0..n {
        m.nodes[k].q = 0.0;
        m.nodes[k].limits = None;
        let dr = match rel {
            0 => (k > 0).then(|| k - 1),
            1 => (k > 0).then_some(0),
            2 => (k + 1 < n).then_some(k + 1),
            3 => (k + 1 < n).then_some(n - 1),
            // two families, taking turns
            _ => (k > 1).then(|| k - 2),
        };
        let (a, b) = muls[k % 4];
        m.nodes[k].mimic = dr.map(|d| (d, a, b));
        if dr.is_none() {
            top = k;
        }
    }
    // the last one to be moved
    let end = if top == 0 || rel == 4 { n - 1 } else { 0 };
    if lim > 0 {
        m.nodes[end].limits = [Some((-0.5, 0.75)), Some((-64.0, 64.0)), Some((-1.0, 8.0))][lim - 1];
        m.nodes[n / 2].limits = [Some((-64.0, 64.0)), Some((-0.25, 1.0)), None][lim - 1];
    }
    ctx.note(|| m.describe());
    let nodes = build::<T>(&m);
    let all: Vec<f64> = (0..n).map(|k| ((k * 7) % 16) as f64 * 0.125 - 1.0).collect();
    for c in [
        Cmd::Set(top, 0.5),
        Cmd::Clamp(top, 1.5),
        Cmd::Set(top, -3.0),
        Cmd::VecSet(View::Tree(0), all.clone()),
        Cmd::Set(end, 0.75),
        Cmd::VecClamp(View::Tree(0), all.iter().map(|x| x * 4.0).collect()),
        Cmd::VecSet(View::End(n - 1), all.iter().map(|x| -x).collect()),
        Cmd::Set(top, 0.25),
    ] {
        ctx.note(|| format!("{:?}", c));
        exec(&c, &mut m, &nodes, ctx).map_err(|e| format!("after {:?}: {}", c, e))?;
    }
    Ok(())
}
/// one command after the other, many times
fn c09_many<T: Sc>(i: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut d = Dec(i);
    let rounds = [300usize, 70_000][d.take(2)];
    let via = d.take(4);
    let mut m = c09_model(3, 0, &[[None, Some(0), Some(1)], [None, Some(0), Some(0)], [Some(2), Some(0), None]][d.take(3)], 2 + 4 * 2 + 16 * 2, 63);
    let top = (0..3).find(|k| m.nodes[*k].mimic.is_none()).unwrap();
    ctx.note(|| m.describe());
    let nodes = build::<T>(&m);
    for r in 0..rounds {
        // now and then a refused one
        let q = if r % 7 == 6 { 99.0 } else { (r % 13) as f64 * 0.125 - 0.5 };
        let c = match via {
            0 => Cmd::Set(top, q),
            1 => Cmd::Clamp(top, q),
            2 => Cmd::VecSet(View::Tree(0), vec![q; 3]),
            _ => Cmd::VecClamp(View::End(2), vec![q; 3]),
        };
        exec(&c, &mut m, &nodes, ctx).map_err(|e| format!("command {}: after {:?}: {}", r, c, e))?;
    }
    Ok(())
}
/// numbers of all sizes: a driver, its follower, and the follower of that; compared to the last digits
const C09_MULS: [f64; 8] = [1.0, -1e-9, 1e6, 1e-3, -1.0, 0.0, 1e-5, -250.0];
const C09_OFFS: [f64; 6] = [0.0, 1e-9, -1e6, 0.25, -1e-4, 1e3];
const C09_QS: [f64; 9] = [1.0, 1e-9, -1e6, 0.0, -1e-4, 1e-12, 37.5, 0.02, 1e9];
fn c09_sizes<T: Sc>(mut d: Dec, ctx: &mut Ctx) -> Result<(), String> {
    let eps = if T::TOL < 1e-6 { f64::EPSILON } else { f32::EPSILON as f64 };
    let q = T::of(C09_QS[d.take(9)]).d();
    let muls = [C09_MULS[d.take(8)], C09_MULS[d.take(8)]];
    let offs = [C09_OFFS[d.take(6)], C09_OFFS[d.take(6)]];
    let (lim, via) = (d.take(4), d.take(5));
    let mut m = tree(&[None, Some(0), Some(1)], &[1, 2, 1], 0);
    let mut want = [q, 0., 0.];
    let mut err = [0.; 3];
    for k in 0..3 {
        m.nodes[k].q = 0.;
        m.nodes[k].limits = None;
        if k > 0 {
            let (a, b) = (T::of(muls[k - 1]).d(), T::of(offs[k - 1]).d());
            m.nodes[k].mimic = Some((k - 1, a, b));
            want[k] = a * want[k - 1] + b;
            err[k] = a.abs() * err[k - 1] + 4. * eps * ((a * want[k - 1]).abs() + b.abs());
        }
    }
    // limits of a follower close to where it must go
    let (at, far) = ([1, 1, 2, 2][lim], (err[[1, 1, 2, 2][lim]] * 8.).max(1e-13));
    let inside = lim % 2 == 0;
    m.nodes[at].limits = Some(if inside { (want[at] - far, want[at] + far) } else { (want[at] + far, want[at] + 3. * far) });
    round::<T>(&mut m);
    let nodes = build::<T>(&m);
    ctx.note(|| format!("{} {} command {} way {}", T::NAME, m.describe(), q, via));
    let x = T::of(q);
    let res = match via {
        0 => nodes[0].set_joint_position(x),
        1 => Chain::from_nodes(vec![nodes[0].clone()]).set_joint_positions(&[x]),
        2 => {
            nodes[0].set_joint_position_clamped(x);
            Ok(())
        }
        3 => {
            Chain::from_nodes(vec![nodes[0].clone()]).set_joint_positions_clamped(&[x]);
            Ok(())
        }
        _ => SerialChain::from_end_to_root(&nodes[0], &nodes[0]).set_joint_positions(&[x]),
    };
    ctx.step();
    ctx.state();
    let got: Vec<f64> = nodes.iter().map(|n| n.joint_position().unwrap().d()).collect();
    if via == 2 || via == 3 {
        if !inside {
            want[at] = T::of(m.nodes[at].limits.unwrap().0).d();
            err[at] = 0.;
            if at == 1 {
                want[2] = m.nodes[2].mimic.unwrap().1 * want[1] + m.nodes[2].mimic.unwrap().2;
                err[2] = 4. * eps * ((m.nodes[2].mimic.unwrap().1 * want[1]).abs() + m.nodes[2].mimic.unwrap().2.abs());
            }
        }
    } else if !inside {
        ensure!(res.is_err(), "a follower goes to {:?}, out of its limits", got);
        ensure!(got == [0.; 3], "refused, but the joints are at {:?}", got);
        ctx.count("refused");
        return Ok(());
    }
    ensure!(res.is_ok(), "refused: {:?}", res);
    for k in 0..3 {
        ensure!(near((got[k] - want[k]).abs(), err[k]), "joint {} is at {:?} instead of {:?} (all: {:?})", k, got[k], want[k], want);
    }
    ctx.count("moved");
    Ok(())
}
fn c09(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let mut s = vec![
        // the digits, of base 4, are the limits of the joints
        space(
            "sizes",
            prod(&[9, 8, 8, 6, 6, 4, 5]) * 2,
            "a driver, a follower and its follower: commands, multipliers and offsets of 1e-12 to 1e9, limits close to where a follower goes, 5 ways to command, f32 and f64",
            |i, ctx| {
                if i % 2 == 1 {
                    c09_sizes::<f32>(Dec(i / 2), ctx)
                } else {
                    c09_sizes::<f64>(Dec(i / 2), ctx)
                }
            },
        ),
        c09_space(2, 3, true, (0..16).collect()),
        c09_space(3, 2, true, (0..64).filter(|x| (x / 16 + x / 4 + x) % 2 == 0 || *x == 63).collect()),
        c09_space(3, 3, false, vec![0, 21, 22, 33, 62]),
        c09_space(4, 2, false, vec![0, 85, 97, 134, 254]),
        c09_space(5, 1, false, vec![0, 341, 1023]),
    ];
    if !q {
        s.push(c09_space(3, 2, true, (0..64).collect()));
        s.push(c09_space(3, 4, false, vec![0, 21, 22, 62]));
        s.push(c09_space(4, 3, false, vec![0, 85, 97]));
        s.push(c09_space(5, 2, false, vec![0, 341]));
    }
    s.push(space("large_f64", 360, "up to 300 joints x 3 trees x 5 relations (one behind the other, all of one; first or last driver) x limits on followers x 8 commands", c09_large::<f64>));
    s.push(space("large_f32", 360, "the same in f32", c09_large::<f32>));
    let md = if q { 3 } else { 4 };
    s.push(space(
        "mixed",
        (others().len() as u64).pow(md) * 16 * 4 * 2 * 3,
        "all sequences of 3 (4) other operations (attaching, detaching, links, origins, updates, copies) on robots of 3 joints with all driver assignments, then 19 commands",
        move |i, ctx| {
            c09_mixed::<f64>(i, md, ctx)
        },
    ));
    s.push(space("many", 24, "300 and 70,000 commands, one after the other", c09_many::<f64>));
    // a driver outside of the commanded chain, and one inside with followers outside
    s.push(space("views", 16 * 4 * 3 * 24, "drivers and followers inside and outside of partial chains", |i, ctx| {
        let mut d = Dec(i);
        let fs = forests(3);
        let f3 = d.pick(&fs).clone();
        let mc = d.take(4) as u64;
        let v = [View::End(1), View::Part(2, 1), View::Tree(3)][d.take(3)];
        // a permutation of the joints 0..4: the three related ones sit anywhere
        let mut perm = vec![0usize, 1, 2, 3];
        let mut code = d.take(24);
        let mut p = vec![];
        for k in (1..=4).rev() {
            p.push(perm.remove(code % k));
            code /= k;
        }
        let mut f = vec![None; 4];
        for k in 0..3 {
            f[p[k]] = f3[k].map(|x| p[x]);
        }
        let muls = (0..4u64).map(|k| ((k + mc) % 4) * 4u64.pow(k as u32)).sum();
        let mut m = c09_model(4, 0, &f, muls, 0);
        m.nodes[3].parent = Some(0);
        ctx.note(|| m.describe());
        let nodes = build::<f64>(&m);
        for c in [
            Cmd::VecSet(v, vec![0.5, 1.0, -0.5123456789, 0.2512345678]),
            Cmd::VecClamp(v, vec![-0.5, 0.75, 0.5, 1.25]),
            Cmd::VecSet(View::Tree(0), vec![0.125, 0.25, 0.375, 0.5]),
        ] {
            ctx.note(|| format!("{:?}", c));
            exec(&c, &mut m, &nodes, ctx).map_err(|e| format!("after {:?}: {}", c, e))?;
        }
        Ok(())
    }));
    Check {
        id: "C09",
        spaces: s,
        assumptions: vec![
            "no cycles of mimic relations and no fixed joint as driver or follower",
            "multipliers and offsets are dyadic; positions of followers are compared up to rounding",
        ],
    }
}

// ---------------------------------------------------------------- C10

fn c10_case<T: Sc>(m: Model, ctx: &mut Ctx) -> Result<(), String> {
    let n = m.nodes.len();
    let big = n > 32;
    let vs = if big {
        vec![View::Tree(0), View::Tree(1), View::End(n - 1), View::End(n / 2), View::Part(n - 1, m.path(n - 1)[1]), View::Pick(0x5555555555), View::Rev(0x5555555555)]
    } else {
        lists(&m)
    };
    for v in vs {
        let mut m = m.clone();
        let nodes = build::<T>(&m);
        let c = view(&nodes, v);
        let idx = indices(&nodes, &c);
        let mov: Vec<usize> = idx.iter().copied().filter(|i| m.nodes[*i].kind.movable()).collect();
        let dof = mov.len();
        ensure!(c.dof() == dof, "{:?}: dof {} instead of {}", v, c.dof(), dof);
        let names: Vec<String> = c.iter_joints().map(|j| j.name.clone()).collect();
        ensure!(
            names == mov.iter().map(|i| m.nodes[*i].name.clone()).collect::<Vec<_>>(),
            "{:?}: movable joints are listed as {:?}",
            v,
            names
        );
        let same_state = |m: &Model, what: &str| -> Result<(), String> {
            for (i, n) in m.nodes.iter().enumerate() {
                let want = if n.kind.movable() { Some(T::of(n.q)) } else { None };
                ensure!(
                    nodes[i].joint_position() == want,
                    "{:?}: after {} joint {} is at {:?} instead of {:?}",
                    v,
                    what,
                    i,
                    nodes[i].joint_position(),
                    want
                );
            }
            let p = c.joint_positions();
            ensure!(
                p == mov.iter().map(|i| T::of(m.nodes[*i].q)).collect::<Vec<_>>(),
                "{:?}: after {} joint_positions() is {:?}",
                v,
                what,
                p
            );
            Ok(())
        };
        same_state(&m, "building")?;
        for round in 0..3 {
            let q: Vec<T> = (0..dof).map(|k| T::of(0.5 + 0.25 * k as f64 - round as f64)).collect();
            let what = match round {
                0 => {
                    let r = c.set_joint_positions(&q);
                    ensure!(r.is_ok(), "{:?}: {:?}", v, r);
                    "set_joint_positions"
                }
                1 => {
                    c.set_joint_positions_clamped(&q);
                    "set_joint_positions_clamped"
                }
                _ => {
                    c.set_joint_positions_unchecked(&q);
                    "set_joint_positions_unchecked"
                }
            };
            for (k, i) in mov.iter().enumerate() {
                m.nodes[*i].q = q[k].d();
            }
            same_state(&m, what)?;
            ctx.state_hash(m.key());
            ctx.step();
            let past = if big { vec![dof + 255, dof + 256, dof + 65536] } else { vec![dof + 256] };
            for len in (0..dof + 3).chain(past) {
                // of many joints: the shortest, the longest and those near a power of two
                if big && len > 2 && len + 2 < dof && (len + 1) & len != 0 && len & (len - 1) != 0 {
                    continue;
                }
                if len != dof {
                    match c.set_joint_positions(&vec![T::of(9.0); len]) {
                        Err(Error::SizeMismatchError { input, required }) => {
                            ensure!(input == len && required == dof, "sizes reported as {} and {}", input, required)
                        }
                        r => return Err(format!("{:?}: {} values for {} joints: {:?}", v, len, dof, r)),
                    }
                    same_state(&m, "a refused write")?;
                    ctx.step();
                }
            }
        }
        // looking up
        for (i, n) in m.nodes.iter().enumerate() {
            if big && i % 16 > 1 && i + 1 < m.nodes.len() {
                continue;
            }
            let found = c.find(&n.name);
            if idx.iter().any(|x| m.nodes[*x].name == n.name) {
                let f = found.ok_or(format!("{:?}: '{}' not found", v, n.name))?;
                let k = index_of(&nodes, f);
                ensure!(
                    idx.contains(&k) && m.nodes[k].name == n.name,
                    "{:?}: find('{}') returns '{}'",
                    v,
                    n.name,
                    m.nodes[k].name
                );
                if m.nodes.iter().filter(|x| x.name == n.name).count() == 1 {
                    ensure!(k == i, "{:?}: find('{}') returns node {}", v, n.name, k);
                }
            } else {
                ensure!(found.is_none(), "{:?}: '{}' found outside of the chain", v, n.name);
            }
        }
        for absent in ["", "j", "j00", "J0", "j0 ", "link0", "link1", "link2", "link3", "link4", "[⚓]", "root"] {
            if m.nodes.iter().all(|n| n.name != absent) {
                ensure!(c.find(absent).is_none(), "{:?}: '{}' found", v, absent);
            }
        }
        // a letter more, a letter less
        for (i, n) in m.nodes.iter().enumerate() {
            if big && i % 16 > 1 {
                continue;
            }
            let less: String = n.name.chars().take(n.name.chars().count().saturating_sub(1)).collect();
            for absent in [format!("{}0", n.name), less] {
                if m.nodes.iter().all(|n| n.name != absent) {
                    ensure!(c.find(&absent).is_none(), "{:?}: '{}' found", v, absent);
                }
            }
        }
    }
    ctx.count("robots");
    Ok(())
}
fn c10(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let mut s = vec![];
    for n in 1..=(if q { 5 } else { 7 }) {
        let sh = shapes(n);
        let k = 3u64.pow(n as u32);
        s.push(space(
            &format!("tree{}", n),
            sh.len() as u64 * k,
            &format!("every view of all {} trees of {} nodes x 3^{} joint kinds; every vector length up to dof+2", sh.len(), n, n),
            move |i, ctx| {
                let mut d = Dec(i);
                let s = d.pick(&sh).clone();
                let kinds = kinds3(n, d.take(k as usize) as u64);
                let mut m = tree(&s, &kinds, (i % 2) as usize);
                for n in m.nodes.iter_mut() {
                    n.q = (n.q * 8.0).round() / 8.0;
                }
                // names: distinct ones; one of them long, one empty, sometimes two alike
                if n > 1 {
                    m.nodes[n - 1].name = "é.long name/with:signs".into();
                }
                if n > 2 && i % 3 == 1 {
                    m.nodes[1].name = String::new();
                }
                if n > 3 && i % 3 == 2 {
                    m.nodes[2].name = m.nodes[0].name.clone();
                }
                // names that differ only after many letters, and in what follows the whole of another
                if i % 4 == 3 {
                    for k in 0..n {
                        let tail = [0, 1, 10, 11, 100, 2, 21][k];
                        m.nodes[k].name = format!("{}{}", "robot/left_arm/".repeat(20), tail);
                    }
                }
                // links: with names of their own, of no joint
                for k in 0..n {
                    m.nodes[k].link = palette_link(k, [0, 1, 2][(k + i as usize / 3) % 3]);
                }
                ctx.note(|| m.describe());
                c10_case::<f64>(m.clone(), ctx)?;
                c10_case::<f32>(m, ctx)
            },
        ));
    }
    // with limits wide enough, and with the sample robot's size
    s.push(space("long", 19 * 3, "chains, combs and binary trees of up to 16, and of 33, 70 and 300 joints", |i, ctx| {
        let mut d = Dec(i);
        let n = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 33, 70, 300][d.take(19)];
        let kind = d.take(3);
        let sh: Vec<Option<usize>> = (0..n)
            .map(|i| {
                if i == 0 {
                    None
                } else {
                    match kind {
                        0 => Some(i - 1),
                        1 => Some((i - 1) / 2),
                        _ => Some(if i % 2 == 0 { i - 2 } else { i - 1 }),
                    }
                }
            })
            .collect();
        let kinds: Vec<u8> = (0..n).map(|i| [1, 2, 1, 0][i % 4]).collect();
        let mut m = tree(&sh, &kinds, 0);
        let wide = n as f64 / 4.;
        for n in m.nodes.iter_mut() {
            n.q = 0.5;
            n.limits = Some((-8.0 - wide, 8.0 + wide));
        }
        ctx.note(|| m.describe());
        c10_case::<f64>(m.clone(), ctx)?;
        c10_case::<f32>(m, ctx)
    }));
    Check {
        id: "C10",
        spaces: s,
        assumptions: vec![],
    }
}

fn main() {
    main_with(|id, t| match id {
        "C08" => Some(c08(t)),
        "C09" => Some(c09(t)),
        "C10" => Some(c10(t)),
        _ => None,
    })
}
