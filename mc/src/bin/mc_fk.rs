//! C01-C07: forward kinematics, Jacobian, velocities, links, centre of mass, caches.
use k::{Chain, InverseKinematicsSolver, Node, SerialChain};
use kmc::ensure;
use kmc::fw::*;
use kmc::model::*;
use kmc::real::*;

// ---------------------------------------------------------------- checks on one configuration

/// Updates through a view, and compares the returned poses and the reported ones
fn upd_check<T: Sc>(m: &Model, nodes: &[Node<T>], c: &Chain<T>, v: View) -> Result<(), String> {
    let idx = indices(nodes, c);
    let mut want: Vec<usize> = view_nodes(m, v);
    ensure!(
        {
            let mut a = idx.clone();
            let mut b = want.clone();
            a.sort_unstable();
            b.sort_unstable();
            a == b
        },
        "{:?} contains nodes {:?} instead of {:?}",
        v,
        idx,
        want
    );
    want.clear();
    upd_values(m, nodes, c, &format!("{:?}", v))
}
fn upd_values<T: Sc>(m: &Model, nodes: &[Node<T>], c: &Chain<T>, v: &str) -> Result<(), String> {
    let idx = indices(nodes, c);
    let tol = tol::<T>(m);
    let got = c.update_transforms();
    ensure!(
        got.len() == idx.len(),
        "update_transforms returned {} poses for {} nodes",
        got.len(),
        idx.len()
    );
    for (k, i) in idx.iter().enumerate() {
        let w = m.world(*i);
        check_pose(&format!("{}: returned pose of {}", v, m.nodes[*i].name), &got[k], &w, tol)?;
        match nodes[*i].world_transform() {
            Some(t) => {
                check_pose(&format!("{}: reported pose of {}", v, m.nodes[*i].name), &t, &w, tol)?
            }
            None => return Err(format!("{}: {} reports no pose after an update", v, m.nodes[*i].name)),
        }
    }
    Ok(())
}

/// Moves every joint of the model and of the robot a bit
fn shake<T: Sc>(m: &mut Model, nodes: &[Node<T>], k: usize) {
    for i in 0..m.nodes.len() {
        if m.nodes[i].kind.movable() {
            let q = T::of(m.nodes[i].q + [0.3, -0.45, 0.8, 1.1][(i + k) % 4]);
            m.nodes[i].q = q.d();
            nodes[i].set_joint_position_unchecked(q);
        }
    }
}

fn pair_model(c: &mut Dec) -> Model {
    // root (3 variants) and one child: the full axis x origin x position product
    let root = match c.take(3) {
        0 => palette_node(0, 0, 2),
        1 => palette_node(0, 1, 0),
        _ => palette_node(0, 2, 1),
    };
    let mut child = palette_node(1, 1, 0);
    let ax = *c.pick(&AXES);
    child.kind = match c.take(2) {
        0 => Kind::Rot(ax),
        _ => Kind::Lin(ax),
    };
    child.org = *c.pick(&ORGS);
    child.q = *c.pick(&QS);
    child.qd = -0.8;
    child.parent = Some(0);
    let mut m = Model { nodes: vec![root, child] };
    decorate(&mut m, c.take(DECOS));
    m
}
fn pair_len() -> u64 {
    prod(&[3, AXES.len(), 2, ORGS.len(), QS.len(), DECOS])
}

/// deep, wide and mixed trees beyond the exhaustive bound, with all kind patterns of period <= 3
fn big_models() -> Vec<Vec<Option<usize>>> {
    let mut v: Vec<Vec<Option<usize>>> = vec![];
    for n in [8usize, 12, 16, 34] {
        v.push((0..n).map(|i| if i == 0 { None } else { Some(i - 1) }).collect());
        v.push((0..n).map(|i| if i == 0 { None } else { Some(0) }).collect());
        if n > 16 {
            continue;
        }
        v.push((0..n).map(|i| if i == 0 { None } else { Some((i - 1) / 2) }).collect());
        v.push((0..n).map(|i| if i == 0 { None } else if i < 3 { Some(0) } else { Some(i - 2) }).collect());
    }
    v
}
fn big_model(c: &mut Dec, shapes: &[Vec<Option<usize>>]) -> Model {
    let s = c.pick(shapes).clone();
    let pat = kinds3(3, c.take(27) as u64);
    let pal = c.take(2);
    let kinds: Vec<u8> = (0..s.len()).map(|i| pat[i % 3]).collect();
    let mut m = tree(&s, &kinds, pal);
    // keep deep chains moderate in size
    for (i, n) in m.nodes.iter_mut().enumerate() {
        n.q *= 1.0 + 0.01 * i as f64;
    }
    decorate(&mut m, c.take(DECOS));
    m
}

/// much deeper and wider ones
const HUGE: u64 = 9 * 5 * DECOS as u64;
fn huge_model(i: u64) -> Model {
    let mut d = Dec(i);
    let n = [70usize, 140, 300][d.take(3)];
    let shape = d.take(3);
    let pat = [[1u8, 1, 1], [1, 2, 0], [0, 0, 1], [2, 1, 1], [0, 1, 2]][d.take(5)];
    let sh: Vec<Option<usize>> = (0..n)
        .map(|i| if i == 0 { None } else { Some([i - 1, 0, (i - 1) / 2][shape]) })
        .collect();
    let kinds: Vec<u8> = (0..n).map(|i| pat[i % 3]).collect();
    let mut m = tree(&sh, &kinds, (i % 2) as usize);
    for (i, n) in m.nodes.iter_mut().enumerate() {
        n.q *= 1.0 + 0.01 * i as f64;
        if i > 6 {
            // far from each other is a matter of its own
            n.org.t = scale(n.org.t, 0.1);
        }
    }
    decorate(&mut m, d.take(DECOS));
    m
}
const HUGE_TEXT: &str = "chains, stars and binary trees of 70, 140 and 300 nodes x 5 kind patterns x 9 decorations";

fn tree_space(
    name: &str,
    n: usize,
    pals: usize,
    what: &str,
    f: impl Fn(Model, &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
) -> Space {
    let sh = shapes(n);
    let k = 3u64.pow(n as u32);
    space(
        name,
        sh.len() as u64 * k * (pals * DECOS) as u64,
        &format!(
            "{}: all {} trees of {} nodes x 3^{} joint kinds x {} palettes x {} decorations (limits, resting joints, links, mimics, names)",
            what,
            sh.len(),
            n,
            n,
            pals,
            DECOS
        ),
        move |i, ctx| {
            let mut d = Dec(i);
            let s = d.pick(&sh).clone();
            let kinds = kinds3(n, d.take(k as usize) as u64);
            let pal = d.take(pals);
            let mut m = tree(&s, &kinds, pal);
            decorate(&mut m, d.take(DECOS));
            f(m, ctx)
        },
    )
}

/// Runs `f` for f64 and f32 on the same model
macro_rules! both {
    ($f:ident, $m:expr, $ctx:expr) => {{
        let m: Model = $m;
        let ctx: &mut Ctx = $ctx;
        ctx.note(|| m.describe());
        $f::<f64>(m.clone(), ctx).map_err(|e| format!("f64: {}", e))?;
        $f::<f32>(m, ctx).map_err(|e| format!("f32: {}", e))
    }};
}

// ---------------------------------------------------------------- C01

fn c01_case<T: Sc>(mut m: Model, ctx: &mut Ctx) -> Result<(), String> {
    round::<T>(&mut m);
    // every view of a robot whose poses were never computed
    for v in lists(&m) {
        let nodes = build::<T>(&m);
        ensure!(
            nodes.iter().all(|n| n.world_transform().is_none()),
            "a pose before the first update"
        );
        let c = view(&nodes, v);
        upd_check(&m, &nodes, &c, v)?;
        ctx.state_hash(m.key());
        ctx.step();
    }
    // every view of one robot after everything has moved, so all other poses are outdated
    let nodes = build::<T>(&m);
    let chains: Vec<(View, Chain<T>)> = lists(&m).into_iter().map(|v| (v, view(&nodes, v))).collect();
    let mut moved = m.clone();
    for (k, (v, c)) in chains.iter().enumerate() {
        shake(&mut moved, &nodes, k);
        if k % 7 == 6 {
            // come back, positions must not grow
            for i in 0..m.nodes.len() {
                if m.nodes[i].kind.movable() {
                    moved.nodes[i].q = m.nodes[i].q;
                    nodes[i].set_joint_position_unchecked(T::of(m.nodes[i].q));
                }
            }
        }
        upd_check(&moved, &nodes, c, *v)?;
        ctx.state_hash(moved.key());
        ctx.step();
    }
    // an update changes no position and no origin
    for i in 0..m.nodes.len() {
        let p = nodes[i].joint_position();
        let want = if moved.nodes[i].kind.movable() { Some(T::of(moved.nodes[i].q)) } else { None };
        ensure!(p == want, "update changed the position of {}", i);
        check_pose("origin", &nodes[i].origin(), &moved.nodes[i].org.pose(), tol::<T>(&moved))?;
    }
    ctx.count("robots");
    Ok(())
}

/// robots for histories: small but with every feature
fn hist_models() -> Vec<Model> {
    let mut v = vec![];
    // Y: fixed root, two arms
    v.push(tree(&[None, Some(0), Some(1), Some(0)], &[0, 1, 2, 1], 0));
    // movable root, path with a fixed joint inside
    v.push(tree(&[None, Some(0), Some(1), Some(2)], &[1, 2, 0, 1], 1));
    // wide
    v.push(tree(&[None, Some(0), Some(0), Some(1)], &[2, 1, 1, 1], 1));
    let plain = v.clone();
    for k in [2, 3, 4, 6, 7] {
        for m in &plain {
            let mut m = m.clone();
            decorate(&mut m, k);
            v.push(m);
        }
    }
    v
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Set(usize, f64),
    Clamp(usize, f64),
    Raw(usize, f64),
    Org(usize, usize),
    /// a new origin at the same place
    Turn(usize),
    /// a tiny move, clamped or unchecked
    Nudge(usize, bool),
    /// through a chain
    Vec(View, f64),
    Update(View),
    Vel(View),
    Links(View),
    Com(View),
    Jac(usize, usize),
    Ik(usize, usize),
    End(usize, usize),
    Attach(usize, usize),
}

fn apply<T: Sc>(op: Op, m: &mut Model, nodes: &[Node<T>]) {
    match op {
        Op::Set(i, q) => {
            let q = T::of(q);
            if let Some(w) = m.checked(i, q.d()) {
                if nodes[i].set_joint_position(q).is_ok() && m.nodes[i].mimic.is_none() {
                    m.apply(&w);
                }
            } else {
                let _ = nodes[i].set_joint_position(q);
            }
        }
        Op::Clamp(i, q) => {
            let q = T::of(q);
            nodes[i].set_joint_position_clamped(q);
            if m.nodes[i].mimic.is_none() {
                let w = m.clamped(i, q.d());
                m.apply(&w);
            }
        }
        Op::Raw(i, q) => {
            let q = T::of(q);
            nodes[i].set_joint_position_unchecked(q);
            if m.nodes[i].kind.movable() {
                m.nodes[i].q = q.d();
            }
        }
        Op::Org(i, o) => {
            m.nodes[i].org = ORGS[o];
            nodes[i].set_origin(iso(&ORGS[o]));
        }
        Op::Turn(i) => {
            let o = &mut m.nodes[i].org;
            o.angle += 0.6;
            nodes[i].set_origin(iso(o));
        }
        Op::Nudge(i, clamped) => {
            if m.nodes[i].kind.movable() {
                let q = T::of(m.nodes[i].q + 3e-7);
                if clamped {
                    nodes[i].set_joint_position_clamped(q);
                    if m.nodes[i].mimic.is_none() {
                        let w = m.clamped(i, q.d());
                        m.apply(&w);
                    }
                } else {
                    nodes[i].set_joint_position_unchecked(q);
                    m.nodes[i].q = q.d();
                }
            }
        }
        Op::Vec(v, q) => {
            let c = view(nodes, v);
            let idx = indices(nodes, &c);
            let mov: Vec<usize> = idx.into_iter().filter(|i| m.nodes[*i].kind.movable()).collect();
            let qs: Vec<T> = (0..mov.len()).map(|k| T::of(q + 0.1 * k as f64)).collect();
            c.set_joint_positions_clamped(&qs);
            for (k, i) in mov.iter().enumerate() {
                if m.nodes[*i].mimic.is_none() {
                    let w = m.clamped(*i, qs[k].d());
                    m.apply(&w);
                }
            }
        }
        Op::Update(v) => {
            view(nodes, v).update_transforms();
        }
        Op::Vel(v) => {
            view(nodes, v).update_velocities();
        }
        Op::Links(v) => view(nodes, v).update_link_transforms(),
        Op::Com(v) => {
            k::center_of_mass(&view(nodes, v));
        }
        Op::Jac(e, r) => {
            k::jacobian(&serial(nodes, e, Some(r)));
        }
        Op::Ik(e, r) => {
            // an attempt that always fails: the budget is too small
            let arm = serial(nodes, e, Some(r));
            let mut t = arm.end_transform();
            t.translation.vector[0] += T::of(0.7);
            let s = k::JacobianIkSolver::new(T::of(1e-6), T::of(1e-6), T::of(0.5), 2);
            let cs = k::Constraints {
                position_y: false,
                position_z: false,
                rotation_x: false,
                rotation_y: false,
                rotation_z: false,
                ..Default::default()
            };
            let before: Vec<_> = nodes.iter().map(|n| n.joint_position()).collect();
            if s.solve_with_constraints(&arm, &t, &cs).is_ok() {
                // take over what it did
                for (i, n) in nodes.iter().enumerate() {
                    if let Some(q) = n.joint_position() {
                        m.nodes[i].q = q.d();
                    }
                }
            } else {
                let after: Vec<_> = nodes.iter().map(|n| n.joint_position()).collect();
                // (restoration is C17)
                if before != after {
                    for (i, n) in nodes.iter().enumerate() {
                        if let Some(q) = n.joint_position() {
                            m.nodes[i].q = q.d();
                        }
                    }
                }
            }
        }
        Op::End(e, r) => {
            serial(nodes, e, Some(r)).end_transform();
        }
        Op::Attach(c, p) => {
            if !m.path(p).contains(&c) {
                nodes[c].set_parent(&nodes[p]);
                m.nodes[c].parent = Some(p);
            }
        }
    }
}

fn hist_alphabet(m: &Model) -> Vec<Op> {
    let n = m.nodes.len();
    let mut v = vec![];
    for i in 0..n {
        if m.nodes[i].kind.movable() {
            v.push(Op::Raw(i, 0.25 + 0.5 * i as f64));
        }
    }
    v.push(Op::Set(1, -1.2));
    v.push(Op::Org(0, 6));
    v.push(Op::Org(1, 3));
    v.push(Op::Org(n - 1, 7));
    v.push(Op::Turn(1));
    v.push(Op::Nudge(1, false));
    v.push(Op::Update(View::Tree(0)));
    v.push(Op::Update(View::Tree(1)));
    v.push(Op::Update(View::End(n - 1)));
    v.push(Op::Update(View::Part(2, 1)));
    v.push(Op::Jac(2, 1));
    v.push(Op::Attach(n - 1, 2));
    v.push(Op::Attach(n - 1, 0));
    v
}

/// all op sequences of length d over every robot; after every op, `check` is called
fn hist_space<S: 'static>(
    name: &str,
    what: &str,
    models: Vec<Model>,
    alphabet: fn(&Model) -> Vec<Op>,
    depth: u32,
    start: fn() -> S,
    check: fn(Op, &Model, &Model, &[Node<f64>], &mut S, &mut Ctx) -> Result<(), String>,
) -> Space {
    let lens: Vec<u64> = models.iter().map(|m| (alphabet(m).len() as u64).pow(depth)).collect();
    let total = lens.iter().sum();
    let desc = format!(
        "{}: all sequences of {} operations out of {} on {} robots",
        what,
        depth,
        alphabet(&models[0]).len(),
        models.len()
    );
    space(name, total, &desc, move |mut i, ctx| {
        let mut k = 0;
        while i >= lens[k] {
            i -= lens[k];
            k += 1;
        }
        let ops = alphabet(&models[k]);
        let mut m = models[k].clone();
        ctx.note(|| m.describe());
        let nodes = build::<f64>(&m);
        let mut st = start();
        let mut d = Dec(i);
        let seq: Vec<Op> = (0..depth).map(|_| *d.pick(&ops)).collect();
        ctx.note(|| format!("{:?}", seq));
        for op in seq {
            let before = m.clone();
            apply(op, &mut m, &nodes);
            ctx.step();
            check(op, &before, &m, &nodes, &mut st, ctx).map_err(|e| format!("after {:?}: {}", op, e))?;
            ctx.state_hash(m.key());
        }
        Ok(())
    })
}

fn c01_hist(op: Op, _b: &Model, m: &Model, nodes: &[Node<f64>], _s: &mut (), ctx: &mut Ctx) -> Result<(), String> {
    if let Op::Update(v) = op {
        // the poses this update left behind ...
        for i in view_nodes(m, v) {
            match nodes[i].world_transform() {
                Some(t) => check_pose(&format!("pose of node {}", i), &t, &m.world(i), tol::<f64>(m))?,
                None => return Err(format!("node {} reports no pose", i)),
            }
        }
        // ... and what the next one returns
        upd_check(m, nodes, &view(nodes, v), v)?;
        ctx.count("updates checked");
    }
    Ok(())
}

fn c01(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let mut s = vec![space("pair", pair_len(), "two nodes: axis x origin x position x kind products", |i, ctx| {
        both!(c01_case, pair_model(&mut Dec(i)), ctx)
    })];
    for n in 1..=(if q { 5 } else { 6 }) {
        s.push(tree_space(&format!("tree{}", n), n, if n < 6 { 2 } else { 1 }, "every view, fresh and outdated poses", |m, ctx| {
            both!(c01_case, m, ctx)
        }));
    }
    let sh = big_models();
    s.push(space("big", prod(&[sh.len(), 27, 2, DECOS]), "deep and wide (8 to 34 nodes) and binary (8 to 16) trees", move |i, ctx| {
        let m = big_model(&mut Dec(i), &sh);
        both!(c01_case, m, ctx)
    }));
    s.push(space("huge", HUGE, HUGE_TEXT, |i, ctx| both!(c01_case, huge_model(i), ctx)));
    s.push(hist_space(
        "hist",
        "moves, origins, re-attachments and partial updates",
        hist_models(),
        hist_alphabet,
        if q { 4 } else { 5 },
        || (),
        c01_hist,
    ));
    s.push(kept_space(hist_models(), false, false, c01_ask));
    s.push(many_space(hist_models(), false, false, c01_ask));
    s.push(made_space(t, made_poses::<f64>, made_poses::<f32>));
    s.push(sizes_space(t, "poses", sizes_poses::<f64>, sizes_poses::<f32>));
    Check {
        id: "C01",
        spaces: s,
        assumptions: vec![
            "values outside of the alphabet (13 axes, 10 origins, 15 positions, palettes) behave like those in it",
            "tolerances: 1e-9 (f64) and 3e-4 (f32) relative to the size of the robot",
        ],
    }
}

// ------------------------------------------- joints that had another life before they became part of a robot

/// What one does with a `Joint` before it becomes a node
#[derive(Clone, Copy, Debug)]
enum Make {
    Set(f64),
    Clamp(f64),
    Unchecked(f64),
    Origin(usize),
    /// another type, and a position for it
    Type(usize),
    Rename,
    Speed(f64),
    Look,
    Copy,
    /// it was in another robot, whose poses and velocities have been computed
    Served,
}
const MAKES: [Make; 14] = [
    Make::Set(0.75),
    Make::Set(-1.25),
    Make::Clamp(0.5),
    Make::Unchecked(-0.25),
    Make::Origin(0),
    Make::Origin(1),
    Make::Type(0),
    Make::Type(1),
    Make::Type(2),
    Make::Rename,
    Make::Speed(1.5),
    Make::Look,
    Make::Copy,
    Make::Served,
];
const MAKE_ORGS: [Org; 2] = [
    Org { t: [0.25, -0.5, 1.0], axis: [0., 0., 1.], angle: 0. },
    Org { t: [0.25, -0.5, 1.0], axis: [1., 0., 0.], angle: 0.8 },
];
const MAKE_TYPES: [Kind; 3] = [Kind::Rot([1., 0., 0.]), Kind::Lin([0., 1., 0.]), Kind::Fixed];
fn make<T: Sc>(op: Make, n: &mut MNode, j: &mut k::Joint<T>) -> Result<(), String> {
    match op {
        Make::Set(q) => {
            let r = j.set_joint_position(T::of(q));
            ensure!(r.is_ok() == n.kind.movable(), "{:?}: {:?}", op, r);
            if n.kind.movable() {
                n.q = q;
            }
        }
        Make::Clamp(q) => {
            j.set_joint_position_clamped(T::of(q));
            if n.kind.movable() {
                n.q = q;
            }
        }
        Make::Unchecked(q) => {
            if n.kind.movable() {
                j.set_joint_position_unchecked(T::of(q));
                n.q = q;
            }
        }
        Make::Origin(i) => {
            n.org = MAKE_ORGS[i];
            j.set_origin(iso(&n.org));
        }
        Make::Type(i) => {
            n.kind = MAKE_TYPES[i];
            j.joint_type = jt(&n.kind);
            (n.q, n.qd) = (0., 0.);
            if n.kind.movable() {
                (n.q, n.qd) = (0.375, -0.5);
                j.set_joint_position_unchecked(T::of(n.q));
                j.set_joint_velocity(T::of(n.qd)).map_err(|e| e.to_string())?;
            }
        }
        Make::Rename => j.name.push('x'),
        Make::Speed(v) => {
            if n.kind.movable() {
                n.qd = v;
                j.set_joint_velocity(T::of(v)).map_err(|e| e.to_string())?;
            }
        }
        Make::Look => {
            let _ = (j.local_transform(), j.world_transform(), j.world_velocity(), j.joint_position(), *j.origin());
        }
        Make::Copy => *j = j.clone(),
        Make::Served => {
            let base = k::NodeBuilder::<T>::new().translation(k::Translation3::new(T::of(3.), T::of(0.), T::of(0.))).into_node();
            let node = Node::new(j.clone());
            node.set_parent(&base);
            let arm = SerialChain::from_end(&node);
            arm.update_velocities();
            arm.end_transform();
            if arm.dof() > 0 {
                k::jacobian(&arm);
            }
            *j = node.joint().clone();
        }
    }
    Ok(())
}
fn made_case<T: Sc>(seq: &[Make], ctx: &mut Ctx, ask: fn(&Model, &[Node<T>]) -> Result<(), String>) -> Result<(), String> {
    let mut m = tree(&[None, Some(0), Some(1)], &[1, 1, 0], 0);
    m.nodes[1].kind = Kind::Rot([0., 0., 1.]);
    (m.nodes[1].q, m.nodes[1].qd) = (0.625, 0.25);
    let mut j = joint::<T>(&m.nodes[1]);
    for op in seq {
        make(*op, &mut m.nodes[1], &mut j).map_err(|e| format!("after {:?}: {}", op, e))?;
        check_pose(&format!("local transform after {:?}", op), &j.local_transform(), &m.local(1), tol::<T>(&m))?;
        let q = if m.nodes[1].kind.movable() { Some(T::of(m.nodes[1].q)) } else { None };
        ensure!(j.joint_position() == q, "after {:?}: position {:?} instead of {:?}", op, j.joint_position(), q);
        ctx.step();
    }
    let nodes = vec![Node::new(joint::<T>(&m.nodes[0])), Node::new(j), Node::new(joint::<T>(&m.nodes[2]))];
    nodes[1].set_parent(&nodes[0]);
    nodes[2].set_parent(&nodes[1]);
    ask(&m, &nodes)?;
    ctx.state_hash(m.key());
    Ok(())
}
fn made_space(
    t: Tier,
    ask: fn(&Model, &[Node<f64>]) -> Result<(), String>,
    ask32: fn(&Model, &[Node<f32>]) -> Result<(), String>,
) -> Space {
    let depth = if t == Tier::Quick { 4 } else { 5 };
    space(
        "made",
        (MAKES.len() as u64).pow(depth),
        &format!("joints made in {} steps of {} (other types, origins, positions, copies, former nodes)", depth, MAKES.len()),
        move |i, ctx| {
            let mut d = Dec(i);
            let seq: Vec<Make> = (0..depth).map(|_| *d.pick(&MAKES)).collect();
            ctx.note(|| format!("{:?}", seq));
            made_case::<f64>(&seq, ctx, ask)?;
            made_case::<f32>(&seq, ctx, ask32).map_err(|e| format!("f32: {}", e))
        },
    )
}
fn made_poses<T: Sc>(m: &Model, nodes: &[Node<T>]) -> Result<(), String> {
    let c = Chain::from_root(nodes[0].clone());
    for (i, t) in c.update_transforms().iter().enumerate() {
        check_pose(&format!("pose of node {}", i), t, &m.world(i), tol::<T>(m))?;
        let t = nodes[i].world_transform().ok_or("no pose after the update")?;
        check_pose(&format!("pose node {} reports", i), &t, &m.world(i), tol::<T>(m))?;
    }
    Ok(())
}
fn made_end<T: Sc>(m: &Model, nodes: &[Node<T>]) -> Result<(), String> {
    check_pose("end pose", &SerialChain::from_end(&nodes[2]).end_transform(), &m.along(&[0, 1, 2]), tol::<T>(m))?;
    check_pose("end pose", &SerialChain::from_end_to_root(&nodes[2], &nodes[1]).end_transform(), &m.along(&[1, 2]), tol::<T>(m))
}
fn made_jacobian<T: Sc>(m: &Model, nodes: &[Node<T>]) -> Result<(), String> {
    jac_check(m, "Jacobian", &[0, 1, 2], &SerialChain::from_end(&nodes[2]))
}
fn made_velocities<T: Sc>(m: &Model, nodes: &[Node<T>]) -> Result<(), String> {
    vel_check(m, nodes, &Chain::from_root(nodes[0].clone()), "the chain")
}

// ------------------------------------------- sizes: from nanometers to a million kilometers

const LENGTHS: [f64; 7] = [1., 1e-6, 1e3, 1e-9, 1e6, 1e-3, 1e9];
const ANGLES: [f64; 8] = [0.5, 1e-12, 1e-3, 1e-9, 0., 1e-6, 50., 1e4];
const MASSES: [f64; 5] = [1., 1e-9, 1e3, 1e-4, 1e9];
/// what rounding can do to lengths and to directions
struct Fine {
    len: f64,
    dir: f64,
    rel: f64,
}
fn fine<T: Sc>(m: &Model) -> Fine {
    let rel = if T::TOL < 1e-6 { 2e-14 } else { 1e-5 };
    let (mut len, mut angle) = (0., 1.);
    for n in &m.nodes {
        len += norm(n.org.t);
        match n.kind {
            Kind::Rot(_) => angle += n.q.abs(),
            Kind::Lin(_) => len += n.q.abs(),
            _ => {}
        }
    }
    Fine { len: rel * angle * len, dir: rel * angle, rel: rel * angle }
}
fn fine_pose<T: Sc>(what: &str, got: &k::Isometry3<T>, want: &Pose, f: &Fine, more: f64) -> Result<(), String> {
    let g = pose_of(got);
    let e = norm(sub(g.p, want.p));
    ensure!(near(e, f.len + f.rel * more), "{} is at {:?} instead of {:?}", what, g.p, want.p);
    for i in 0..3 {
        for j in 0..3 {
            ensure!(near((g.r[i][j] - want.r[i][j]).abs(), f.dir), "{} is turned by {:?} instead of {:?}", what, g.r, want.r);
        }
    }
    Ok(())
}
fn sizes_poses<T: Sc>(m: &Model, nodes: &[Node<T>]) -> Result<(), String> {
    let f = fine::<T>(m);
    let c = Chain::from_root(nodes[0].clone());
    for (i, t) in c.update_transforms().iter().enumerate() {
        fine_pose(&format!("node {}", i), t, &m.world(i), &f, 0.)?;
    }
    Ok(())
}
fn sizes_end<T: Sc>(m: &Model, nodes: &[Node<T>]) -> Result<(), String> {
    let f = fine::<T>(m);
    for (e, r, path) in [(2, None, &[0, 1, 2][..]), (2, Some(1), &[1, 2]), (1, None, &[0, 1]), (2, Some(2), &[2])] {
        fine_pose("the end", &serial(nodes, e, r).end_transform(), &m.along(path), &f, 0.)?;
    }
    Ok(())
}
fn sizes_jacobian<T: Sc>(m: &Model, nodes: &[Node<T>]) -> Result<(), String> {
    let f = fine::<T>(m);
    let got = k::jacobian(&serial(nodes, 2, None));
    let want = m.jacobian(&[0, 1, 2]);
    ensure!(got.ncols() == want.len(), "{} columns instead of {}", got.ncols(), want.len());
    let mov: Vec<usize> = (0..3).filter(|i| m.nodes[*i].kind.movable()).collect();
    for (c, w) in want.iter().enumerate() {
        let turns = matches!(m.nodes[mov[c]].kind, Kind::Rot(_));
        for r in 0..6 {
            let tol = if turns && r < 3 { f.len } else { f.dir };
            ensure!(near((got[(r, c)].d() - w[r]).abs(), tol), "J[{},{}] is {} instead of {}", r, c, got[(r, c)].d(), w[r]);
        }
    }
    Ok(())
}
fn sizes_velocities<T: Sc>(m: &Model, nodes: &[Node<T>]) -> Result<(), String> {
    let f = fine::<T>(m);
    let (mut ang, mut lin) = (0., 0.);
    for n in &m.nodes {
        match n.kind {
            Kind::Rot(_) => ang += n.qd.abs(),
            Kind::Lin(_) => lin += n.qd.abs(),
            _ => {}
        }
    }
    let c = Chain::from_root(nodes[0].clone());
    for (i, got) in c.update_velocities().iter().enumerate() {
        let (v, w) = m.velocity(i);
        for r in 0..3 {
            ensure!(
                near((got.rotation[r].d() - w[r]).abs(), f.dir * ang),
                "node {} turns with {:?} instead of {:?}", i, got.rotation, w
            );
            ensure!(
                near((got.translation[r].d() - v[r]).abs(), 2. * f.len * ang + f.dir * lin),
                "node {} moves with {:?} instead of {:?}", i, got.translation, v
            );
        }
    }
    Ok(())
}
fn sizes_links<T: Sc>(m: &Model, nodes: &[Node<T>]) -> Result<(), String> {
    let f = fine::<T>(m);
    Chain::from_root(nodes[0].clone()).update_link_transforms();
    for i in 0..3 {
        let w = m.world(i);
        let ml = m.nodes[i].link.as_ref().unwrap();
        let guard = nodes[i].link();
        let l = guard.as_ref().ok_or("the link is gone")?;
        let mut all = vec![("inertial", l.inertial.world_transform(), &ml.inertial)];
        all.extend(l.visuals.iter().zip(&ml.visuals).map(|(x, y)| ("visual", x.world_transform(), y)));
        all.extend(l.collisions.iter().zip(&ml.collisions).map(|(x, y)| ("collision", x.world_transform(), y)));
        ensure!(all.len() == 1 + ml.visuals.len() + ml.collisions.len(), "elements lost");
        for (what, got, org) in all {
            let got = got.ok_or(format!("{} of node {} has no pose", what, i))?;
            fine_pose(&format!("{} of node {}", what, i), &got, &w.mul(&org.pose()), &f, norm(org.t))?;
        }
    }
    Ok(())
}
fn sizes_com<T: Sc>(m: &Model, nodes: &[Node<T>]) -> Result<(), String> {
    let f = fine::<T>(m);
    let more: f64 = m.nodes.iter().filter_map(|n| n.link.as_ref()).map(|l| norm(l.inertial.t)).sum();
    for v in [&[0usize, 1, 2][..], &[1, 2], &[0]] {
        let c = Chain::from_nodes(v.iter().map(|i| nodes[*i].clone()).collect());
        let (got, want) = (k::center_of_mass(&c), m.com(v));
        let e = norm(sub([got[0].d(), got[1].d(), got[2].d()], want));
        ensure!(near(e, 4. * (f.len + f.rel * more)), "the centre of mass of {:?} is {:?} instead of {:?}", v, got, want);
    }
    Ok(())
}
type Ask<T> = fn(&Model, &[Node<T>]) -> Result<(), String>;
/// Arms of three nodes, every one turning or sliding, of its own length and at its own position
fn sizes_space(t: Tier, what: &'static str, ask: Ask<f64>, ask32: Ask<f32>) -> Space {
    let (l, a) = if t == Tier::Quick { (5, 6) } else { (7, 8) };
    let one = [2, l, a];
    space(
        "sizes",
        prod(&one).pow(3) * 2,
        "arms of three joints, each of its own length and position (1e-9 to 1e9, 1e-12 to 1e4), asked before and after a small move; compared to the last digits",
        move |i, ctx| {
            let mut d = Dec(i);
            let mut m = tree(&[None, Some(0), Some(1)], &[1, 1, 1], (i % 3) as usize);
            let single = d.take(2) == 1;
            for k in 0..3 {
                let slides = d.take(2) == 1;
                let (len, q) = (LENGTHS[d.take(l)], ANGLES[d.take(a)]);
                let n = &mut m.nodes[k];
                let ax = [unit([1., 2., -0.5]), unit([0., -1., 0.]), unit([-0.3, 0.4, 2.])][k];
                n.kind = if slides { Kind::Lin(ax) } else { Kind::Rot(ax) };
                n.org.t = scale([0.3, -0.7, 0.6], len);
                n.q = if k == 1 { -q } else { q } * if slides { len } else { 1. };
                n.limits = None;
                n.mimic = None;
                // speeds from the same list
                n.qd = 0.;
                n.link = None;
                if what == "velocities" {
                    n.qd = [1., -1., 0.5][k] * ANGLES[(i / 7 + 3 * k as u64) as usize % a] * if slides { len } else { 1. };
                }
                if what == "links" || what == "masses" {
                    let mut x = palette_link(k, 3).unwrap();
                    let o = LENGTHS[(i / 5 + 2 * k as u64) as usize % l];
                    x.inertial.t = scale([0.2, 0.1, -0.4], o);
                    for (y, e) in x.visuals.iter_mut().chain(x.collisions.iter_mut()).enumerate() {
                        e.t = scale([0.1 * y as f64, 0.3, -0.2], o);
                    }
                    x.mass = MASSES[(i / 11 + k as u64 * 2) as usize % 5] * (1. + 0.25 * k as f64);
                    n.link = Some(x);
                }
            }
            ctx.note(|| format!("{} {}", if single { "f32" } else { "f64" }, m.describe()));
            fn go<T: Sc>(mut m: Model, ask: Ask<T>, which: usize, ctx: &mut Ctx) -> Result<(), String> {
                round::<T>(&mut m);
                let nodes = build::<T>(&m);
                ask(&m, &nodes)?;
                // a small move
                let n = &mut m.nodes[which];
                n.q = T::of(n.q + if n.q == 0. { 1e-12 } else { n.q * 1e-6 }).d();
                nodes[which].set_joint_position(T::of(n.q)).map_err(|e| e.to_string())?;
                ctx.step();
                ctx.state_hash(m.key());
                ask(&m, &nodes).map_err(|e| format!("after a small move of node {}: {}", which, e))
            }
            let which = (i / 2 % 3) as usize;
            if single {
                go::<f32>(m, ask32, which, ctx)
            } else {
                go::<f64>(m, ask, which, ctx)
            }
        },
    )
}

// ------------------------------------------- one object asked again and again, one change in between

/// One thing about one node; everything else stays as it is
#[derive(Clone, Copy, Debug)]
enum Change {
    Nothing,
    Move(usize),
    Nudge(usize),
    /// to where it is
    Touch(usize),
    /// the origin: elsewhere, or turned at the same place
    Shift(usize),
    Turn(usize),
    /// the link: other masses, the same masses elsewhere, elements elsewhere, another one
    Mass(usize),
    Inner(usize),
    Elements(usize),
    Link(usize),
    Attach(usize, usize),
}
fn changes(m: &Model, links: bool, attach: bool) -> Vec<Change> {
    let mut v = vec![Change::Nothing];
    for i in 0..m.nodes.len() {
        if m.nodes[i].kind.movable() {
            v.extend([Change::Move(i), Change::Nudge(i), Change::Touch(i)]);
        }
        v.extend([Change::Shift(i), Change::Turn(i)]);
        if links {
            if m.nodes[i].link.is_some() {
                v.extend([Change::Mass(i), Change::Inner(i), Change::Elements(i)]);
            }
            v.push(Change::Link(i));
        }
    }
    if attach {
        for (c, p) in [(3, 2), (3, 0), (2, 0), (1, 0), (2, 3)] {
            v.push(Change::Attach(c, p));
        }
    }
    v
}
fn change(x: Change, m: &mut Model, nodes: &[Node<f64>]) {
    let set = |m: &Model, i: usize| nodes[i].set_link(m.nodes[i].link.as_ref().map(link));
    match x {
        Change::Nothing => {}
        Change::Move(i) => {
            m.nodes[i].q += if m.nodes[i].q > 0. { -0.9 } else { 0.8 };
            nodes[i].set_joint_position_unchecked(m.nodes[i].q);
        }
        Change::Nudge(i) => {
            m.nodes[i].q += 3e-7;
            nodes[i].set_joint_position_unchecked(m.nodes[i].q);
        }
        Change::Touch(i) => nodes[i].set_joint_position_unchecked(m.nodes[i].q),
        Change::Shift(i) => {
            m.nodes[i].org.t[1] += 0.35;
            nodes[i].set_origin(iso(&m.nodes[i].org));
        }
        Change::Turn(i) => {
            m.nodes[i].org.angle += 0.6;
            nodes[i].set_origin(iso(&m.nodes[i].org));
        }
        Change::Mass(i) => {
            if let Some(l) = &mut m.nodes[i].link {
                l.mass = l.mass * 3. + 1.;
            }
            set(m, i);
        }
        Change::Inner(i) => {
            if let Some(l) = &mut m.nodes[i].link {
                l.inertial.t[2] -= 0.45;
                l.inertial.angle += 0.5;
            }
            set(m, i);
        }
        Change::Elements(i) => {
            if let Some(l) = &mut m.nodes[i].link {
                for o in l.visuals.iter_mut().chain(l.collisions.iter_mut()) {
                    o.t[0] += 0.2;
                }
            }
            set(m, i);
        }
        Change::Link(i) => {
            m.nodes[i].link = palette_link(i + 1, (i + 1) % 4);
            set(m, i);
        }
        Change::Attach(c, p) => {
            if !m.path(p).contains(&c) {
                m.nodes[c].parent = Some(p);
                nodes[c].set_parent(&nodes[p]);
            }
        }
    }
}
/// What is kept: a chain, or an arm with the indices of its nodes
enum Kept {
    Chain(View, Chain<f64>),
    Arm(String, Vec<usize>, SerialChain<f64>),
}
fn kept(m: &Model, nodes: &[Node<f64>], arms: bool) -> Vec<Kept> {
    if arms {
        serials(m, nodes).into_iter().map(|(w, p, a)| Kept::Arm(w, p, a)).collect()
    } else {
        lists(m).into_iter().map(|v| Kept::Chain(v, view(nodes, v))).collect()
    }
}
/// all pairs of changes, the same object asked before, between and after
fn kept_space(
    models: Vec<Model>,
    arms: bool,
    links: bool,
    ask: fn(&Model, &[Node<f64>], &Kept) -> Result<(), String>,
) -> Space {
    // (robot, number of objects, changes)
    let parts: Vec<(Model, usize, Vec<Change>)> = models
        .into_iter()
        .map(|m| {
            let n = kept(&m, &build::<f64>(&m), arms).len();
            let c = changes(&m, links, !arms);
            (m, n, c)
        })
        .collect();
    let lens: Vec<u64> = parts.iter().map(|(_, n, c)| prod(&[*n, c.len(), c.len(), 2])).collect();
    let desc = format!(
        "{} robots x chains x all pairs of changes of one thing; the same object is asked before, between and after, and whether others are asked in between",
        parts.len()
    );
    space("kept", lens.iter().sum(), &desc, move |mut i, ctx| {
        let mut k = 0;
        while i >= lens[k] {
            i -= lens[k];
            k += 1;
        }
        let mut d = Dec(i);
        let (m, n, cs) = &parts[k];
        let (which, seq, others) = (d.take(*n), [*d.pick(cs), *d.pick(cs)], d.take(2) == 1);
        let mut m = m.clone();
        let nodes = build::<f64>(&m);
        let it = kept(&m, &nodes, arms).swap_remove(which);
        ctx.note(|| {
            let what = match &it {
                Kept::Chain(v, _) => format!("{:?}", v),
                Kept::Arm(w, p, _) => format!("{} {:?}", w, p),
            };
            format!("{}kept: {}; changes {:?}, others asked: {}", m.describe(), what, seq, others)
        });
        ask(&m, &nodes, &it).map_err(|e| format!("at first: {}", e))?;
        for c in seq {
            change(c, &mut m, &nodes);
            if others {
                let root = nodes.iter().find(|n| n.is_root()).unwrap();
                let all = Chain::from_root(root.clone());
                all.update_velocities();
                all.update_link_transforms();
            }
            ask(&m, &nodes, &it).map_err(|e| format!("after {:?}: {}", c, e))?;
            ctx.step();
            ctx.state_hash(m.key());
        }
        Ok(())
    })
}
const MANY: [usize; 6] = [255, 256, 257, 65535, 65536, 65537];
/// one change (or query) repeated so often that small counters come round
fn many_space(
    models: Vec<Model>,
    arms: bool,
    links: bool,
    ask: fn(&Model, &[Node<f64>], &Kept) -> Result<(), String>,
) -> Space {
    let models: Vec<Model> = models.into_iter().take(2).collect();
    let changes: Vec<Change> = (0..4)
        .flat_map(|i| {
            let mut v = vec![Change::Move(i), Change::Shift(i)];
            if links {
                v.push(Change::Inner(i));
            }
            v
        })
        .chain([Change::Attach(3, 0)])
        .collect();
    let nc = changes.len() + 1;
    space(
        "many",
        prod(&[models.len(), 3, nc, MANY.len()]),
        "2 robots x 3 kept objects x one change or query repeated 255 to 257 and 65535 to 65537 times between two queries",
        move |i, ctx| {
            let mut d = Dec(i);
            let mut m = d.pick(&models).clone();
            let nodes = build::<f64>(&m);
            let mut objs = kept(&m, &nodes, arms);
            let which = [0, objs.len() / 2, objs.len() - 1][d.take(3)];
            let it = objs.swap_remove(which);
            let c = d.take(nc);
            let times = *d.pick(&MANY);
            ctx.note(|| format!("{}object {} {:?} x {}", m.describe(), which, changes.get(c), times));
            ask(&m, &nodes, &it).map_err(|e| format!("at first: {}", e))?;
            if c == changes.len() {
                // queries, then one move
                for k in 0..(if times > 300 { 2000 } else { times }) {
                    ask(&m, &nodes, &it).map_err(|e| format!("query {}: {}", k, e))?;
                }
                change(Change::Move(0), &mut m, &nodes);
                change(Change::Shift(1), &mut m, &nodes);
            } else {
                for k in 0..times {
                    let x = match changes[c] {
                        // by turns below two nodes; at last below the other one
                        Change::Attach(c, p) if (times - k) % 2 == 0 => Change::Attach(c, p + 1),
                        Change::Move(i) if !m.nodes[i].kind.movable() => Change::Nothing,
                        Change::Shift(i) if m.nodes[i].org.t[1] > 5. => {
                            m.nodes[i].org.t[1] -= 10.1;
                            Change::Shift(i)
                        }
                        Change::Inner(i) => {
                            if let Some(l) = &mut m.nodes[i].link {
                                if l.inertial.t[2] < -5. {
                                    l.inertial.t[2] += 10.1;
                                    l.inertial.angle -= 11.2;
                                }
                            }
                            Change::Inner(i)
                        }
                        x => x,
                    };
                    change(x, &mut m, &nodes);
                }
            }
            ask(&m, &nodes, &it).map_err(|e| format!("after {} x {:?}: {}", times, changes.get(c), e))?;
            ctx.step();
            ctx.state_hash(m.key());
            Ok(())
        },
    )
}
fn c01_ask(m: &Model, nodes: &[Node<f64>], it: &Kept) -> Result<(), String> {
    match it {
        Kept::Chain(_, c) => upd_values(m, nodes, c, "the chain"),
        Kept::Arm(_, _, c) => upd_values(m, nodes, c, "the arm"),
    }
}
fn c02_ask(m: &Model, _n: &[Node<f64>], it: &Kept) -> Result<(), String> {
    match it {
        Kept::Chain(..) => Ok(()),
        Kept::Arm(w, p, c) => check_pose(w, &c.end_transform(), &m.along(p), tol::<f64>(m)),
    }
}
fn c03_ask(m: &Model, _n: &[Node<f64>], it: &Kept) -> Result<(), String> {
    match it {
        Kept::Chain(..) => Ok(()),
        Kept::Arm(w, p, c) => jac_check(m, w, p, c),
    }
}
fn c04_ask(m: &Model, nodes: &[Node<f64>], it: &Kept) -> Result<(), String> {
    match it {
        Kept::Chain(_, c) => vel_check(m, nodes, c, "the chain"),
        Kept::Arm(_, _, c) => vel_check(m, nodes, c, "the arm"),
    }
}
fn c05_ask(m: &Model, nodes: &[Node<f64>], it: &Kept) -> Result<(), String> {
    let c: &Chain<f64> = match it {
        Kept::Chain(_, c) => c,
        Kept::Arm(_, _, c) => c,
    };
    c.update_link_transforms();
    link_check(m, nodes, &indices(nodes, c))
}
fn c06_ask(m: &Model, nodes: &[Node<f64>], it: &Kept) -> Result<(), String> {
    let c: &Chain<f64> = match it {
        Kept::Chain(_, c) => c,
        Kept::Arm(_, _, c) => c,
    };
    let idx = indices(nodes, c);
    if idx.iter().filter_map(|i| m.nodes[*i].link.as_ref()).all(|l| l.mass == 0.) {
        return Ok(());
    }
    let (got, want) = (k::center_of_mass(c), m.com(&idx));
    ensure!(
        near(norm(sub([got[0], got[1], got[2]], want)), tol::<f64>(m) * 4.),
        "centre of mass is {:?} but should be {:?}",
        got,
        want
    );
    Ok(())
}

// ---------------------------------------------------------------- C02

fn snapshot<T: Sc>(nodes: &[Node<T>]) -> Vec<(Option<T>, Option<Pose>, Pose)> {
    nodes
        .iter()
        .map(|n| {
            (
                n.joint_position(),
                n.world_transform().map(|t| pose_of(&t)),
                pose_of(&n.origin()),
            )
        })
        .collect()
}

fn serials<T: Sc>(m: &Model, nodes: &[Node<T>]) -> Vec<(String, Vec<usize>, SerialChain<T>)> {
    let mut v = vec![];
    let n = m.nodes.len();
    for e in 0..n {
        // of a large robot: few ends and starts
        if n > 40 && ![1, n / 2, n - 1].contains(&e) {
            continue;
        }
        v.push((format!("from_end({})", e), m.path(e), serial(nodes, e, None)));
        for (k, r) in m.path(e).iter().enumerate() {
            if n > 40 && k != 1 && k + 10 != m.path(e).len() {
                continue;
            }
            v.push((
                format!("from_end_to_root({},{})", e, r),
                m.path(e)[k..].to_vec(),
                serial(nodes, e, Some(*r)),
            ));
            v.push((
                format!("new_unchecked({},{})", e, r),
                m.path(e)[k..].to_vec(),
                SerialChain::new_unchecked(Chain::from_nodes(m.path(e)[k..].iter().map(|i| nodes[*i].clone()).collect())),
            ));
        }
    }
    // some joints of a path left out
    for e in 2..m.nodes.len() {
        let path = m.path(e);
        let n = path.len();
        if n > 2 && (n < 6 || e + 2 > m.nodes.len()) {
            for gap in 0..n.min(3) {
                let p: Vec<usize> = match gap {
                    0 => path.iter().copied().filter(|i| *i != path[n - 2]).collect(),
                    1 => path.iter().copied().filter(|i| *i != path[1]).collect(),
                    _ => path.iter().copied().step_by(2).collect(),
                };
                let c = Chain::from_nodes(p.iter().map(|i| nodes[*i].clone()).collect());
                v.push((format!("new_unchecked{:?}", p), p, SerialChain::new_unchecked(c)));
            }
        }
    }
    for r in 0..m.nodes.len() {
        if n > 40 && r > 1 {
            break;
        }
        let c = Chain::from_root(nodes[r].clone());
        if let Some(c) = SerialChain::try_new(c) {
            let mut p = vec![r];
            while let Some(x) = m.children(*p.last().unwrap()).first() {
                p.push(*x);
            }
            v.push((format!("try_new({})", r), p, c));
        }
    }
    v
}

fn c02_case<T: Sc>(mut m: Model, ctx: &mut Ctx) -> Result<(), String> {
    round::<T>(&mut m);
    let nodes = build::<T>(&m);
    let list = serials(&m, &nodes);
    for phase in 0..3 {
        for (what, path, arm) in &list {
            let before = snapshot(&nodes);
            let got = arm.end_transform();
            ensure!(snapshot(&nodes) == before, "{}: end_transform changed something", what);
            check_pose(&format!("{} phase {}", what, phase), &got, &m.along(path), tol::<T>(&m))?;
            ctx.state_hash(m.key());
            ctx.step();
        }
        // phase 1: poses computed, then everything moved; phase 2: only a part is updated again
        if phase == 0 {
            list[0].2.update_transforms();
            Chain::from_root(nodes[0].clone()).update_transforms();
        }
        shake(&mut m, &nodes, phase);
        if phase == 1 {
            list[list.len() / 2].2.update_transforms();
        }
    }
    ctx.count("robots");
    Ok(())
}

fn c02_hist(_op: Op, _b: &Model, m: &Model, nodes: &[Node<f64>], _s: &mut (), _ctx: &mut Ctx) -> Result<(), String> {
    let n = m.nodes.len();
    for e in [1, 2, n - 1] {
        let path = m.path(e);
        for (k, r) in path.iter().enumerate() {
            let arm = serial(nodes, e, Some(*r));
            check_pose(
                &format!("end pose from {} to {}", r, e),
                &arm.end_transform(),
                &m.along(&path[k..]),
                tol::<f64>(m),
            )?;
        }
    }
    Ok(())
}

fn c02(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let mut s = vec![space("pair", pair_len(), "two nodes: axis x origin x position x kind products", |i, ctx| {
        both!(c02_case, pair_model(&mut Dec(i)), ctx)
    })];
    for n in 1..=(if q { 5 } else { 6 }) {
        s.push(tree_space(&format!("tree{}", n), n, if n < 6 { 2 } else { 1 }, "every serial chain", |m, ctx| {
            both!(c02_case, m, ctx)
        }));
    }
    let sh = big_models();
    s.push(space("big", prod(&[sh.len(), 27, 2, DECOS]), "deep and wide (8 to 34 nodes) and binary (8 to 16) trees", move |i, ctx| {
        let m = big_model(&mut Dec(i), &sh);
        both!(c02_case, m, ctx)
    }));
    s.push(space("huge", HUGE, HUGE_TEXT, |i, ctx| both!(c02_case, huge_model(i), ctx)));
    s.push(hist_space(
        "hist",
        "moves, origins, re-attachments and partial updates",
        hist_models(),
        hist_alphabet,
        if q { 4 } else { 5 },
        || (),
        c02_hist,
    ));
    s.push(kept_space(hist_models(), true, false, c02_ask));
    s.push(many_space(hist_models(), true, false, c02_ask));
    s.push(made_space(t, made_end::<f64>, made_end::<f32>));
    s.push(sizes_space(t, "ends", sizes_end::<f64>, sizes_end::<f32>));
    Check {
        id: "C02",
        spaces: s,
        assumptions: vec!["values outside of the alphabet behave like those in it", "tolerances as in C01"],
    }
}

// ---------------------------------------------------------------- C03

fn jac_check<T: Sc>(m: &Model, what: &str, path: &[usize], arm: &SerialChain<T>) -> Result<(), String> {
    let want = m.jacobian(path);
    let got = k::jacobian(arm);
    ensure!(got.nrows() == 6, "{}: {} rows", what, got.nrows());
    ensure!(
        got.ncols() == want.len(),
        "{}: {} columns for {} movable joints",
        what,
        got.ncols(),
        want.len()
    );
    let tol = tol::<T>(m) * 2.0;
    for c in 0..want.len() {
        for r in 0..6 {
            let e = (got[(r, c)].d() - want[c][r]).abs();
            ensure!(
                near(e, tol),
                "{}: J[{},{}] is {} but should be {}",
                what,
                r,
                c,
                got[(r, c)].d(),
                want[c][r]
            );
        }
    }
    Ok(())
}

/// derivative of the arm's own end pose, by moving its joints (f64)
fn jac_numeric(m: &Model, what: &str, path: &[usize], arm: &SerialChain<f64>, nodes: &[Node<f64>]) -> Result<(), String> {
    let j = k::jacobian(arm);
    let h = 1e-5;
    let mut c = 0;
    for i in path {
        if !m.nodes[*i].kind.movable() {
            continue;
        }
        let q = m.nodes[*i].q;
        nodes[*i].set_joint_position_unchecked(q + h);
        let a = pose_of(&arm.end_transform());
        nodes[*i].set_joint_position_unchecked(q - h);
        let b = pose_of(&arm.end_transform());
        nodes[*i].set_joint_position_unchecked(q);
        let v = scale(sub(a.p, b.p), 0.5 / h);
        let w = scale(log_rot(&mm(&a.r, &tr(&b.r))), 0.5 / h);
        for r in 0..3 {
            let tol = 1e-5 * extent(m);
            ensure!(
                near((j[(r, c)] - v[r]).abs(), tol) && near((j[(r + 3, c)] - w[r]).abs(), tol),
                "{}: column {} is {:?} but the end pose moves with {:?} {:?}",
                what,
                c,
                j.column(c).iter().collect::<Vec<_>>(),
                v,
                w
            );
        }
        c += 1;
    }
    Ok(())
}

fn c03_case<T: Sc>(mut m: Model, ctx: &mut Ctx) -> Result<(), String> {
    round::<T>(&mut m);
    let nodes = build::<T>(&m);
    let list = serials(&m, &nodes);
    for phase in 0..3 {
        for (what, path, arm) in &list {
            jac_check(&m, what, path, arm)?;
            ctx.state_hash(m.key());
            ctx.step();
        }
        if phase == 0 {
            Chain::from_root(nodes[0].clone()).update_transforms();
        }
        shake(&mut m, &nodes, phase);
        if phase == 1 {
            list[list.len() / 2].2.update_transforms();
        }
    }
    // computing it changes no position
    for (i, n) in nodes.iter().enumerate() {
        if let Some(q) = n.joint_position() {
            ensure!(q.d() == m.nodes[i].q, "jacobian moved node {}", i);
        }
    }
    ctx.count("robots");
    Ok(())
}
fn c03_num(m: Model, ctx: &mut Ctx) -> Result<(), String> {
    let nodes = build::<f64>(&m);
    for (what, path, arm) in serials(&m, &nodes) {
        jac_numeric(&m, &what, &path, &arm, &nodes)?;
        ctx.state();
    }
    Ok(())
}
fn c03_hist(_op: Op, _b: &Model, m: &Model, nodes: &[Node<f64>], _s: &mut (), _ctx: &mut Ctx) -> Result<(), String> {
    let n = m.nodes.len();
    for e in [2, n - 1] {
        let path = m.path(e);
        for (k, r) in path.iter().enumerate() {
            // a fresh look each time would refresh caches: only look at one start per history step
            if (k + m.nodes.len()) % 2 == 0 {
                let arm = serial(nodes, e, Some(*r));
                jac_check(m, &format!("Jacobian from {} to {}", r, e), &path[k..], &arm)?;
            }
        }
    }
    Ok(())
}
fn c03(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let mut s = vec![
        space("pair", pair_len(), "two nodes: axis x origin x position x kind products", |i, ctx| {
            both!(c03_case, pair_model(&mut Dec(i)), ctx)
        }),
        space("pairnum", pair_len(), "the same, derivative of the real end pose", |i, ctx| {
            let m = pair_model(&mut Dec(i));
            ctx.note(|| m.describe());
            c03_num(m, ctx)
        }),
    ];
    for n in 1..=(if q { 5 } else { 6 }) {
        s.push(tree_space(&format!("tree{}", n), n, if n < 6 { 2 } else { 1 }, "every serial chain", |m, ctx| {
            both!(c03_case, m, ctx)
        }));
        if n <= 5 {
            s.push(tree_space(&format!("num{}", n), n, 2, "derivative of the real end pose", |m, ctx| {
                ctx.note(|| m.describe());
                c03_num(m, ctx)
            }));
        }
    }
    let sh = big_models();
    s.push(space("big", prod(&[sh.len(), 27, 2, DECOS]), "deep and wide (8 to 34 nodes) and binary (8 to 16) trees", move |i, ctx| {
        let m = big_model(&mut Dec(i), &sh);
        both!(c03_case, m, ctx)
    }));
    s.push(space("huge", HUGE, HUGE_TEXT, |i, ctx| both!(c03_case, huge_model(i), ctx)));
    s.push(hist_space(
        "hist",
        "moves, origins, re-attachments and partial updates",
        hist_models(),
        hist_alphabet,
        if q { 4 } else { 5 },
        || (),
        c03_hist,
    ));
    s.push(kept_space(hist_models(), true, false, c03_ask));
    s.push(many_space(hist_models(), true, false, c03_ask));
    s.push(made_space(t, made_jacobian::<f64>, made_jacobian::<f32>));
    s.push(sizes_space(t, "jacobian", sizes_jacobian::<f64>, sizes_jacobian::<f32>));
    Check {
        id: "C03",
        spaces: s,
        assumptions: vec!["values outside of the alphabet behave like those in it", "tolerances as in C01, 1e-5 for differences"],
    }
}

// ---------------------------------------------------------------- C04

fn vel_check<T: Sc>(m: &Model, nodes: &[Node<T>], c: &Chain<T>, what: &str) -> Result<(), String> {
    let idx = indices(nodes, c);
    let got = c.update_velocities();
    ensure!(got.len() == idx.len(), "{}: {} velocities for {} nodes", what, got.len(), idx.len());
    let speed = m.nodes.iter().map(|n| n.qd.abs()).sum::<f64>() + 1.0;
    let tol = tol::<T>(m) * speed;
    for (k, i) in idx.iter().enumerate() {
        let (v, w) = m.velocity(*i);
        let rep = match nodes[*i].world_velocity() {
            Some(x) => x,
            None => return Err(format!("{}: node {} reports no velocity", what, i)),
        };
        for (src, x) in [("returned", &got[k]), ("reported", &rep)] {
            for r in 0..3 {
                ensure!(
                    near((x.translation[r].d() - v[r]).abs(), tol) && near((x.rotation[r].d() - w[r]).abs(), tol),
                    "{}: {} velocity of node {} is\n  {:?} {:?}\nbut should be\n  {:?} {:?}",
                    what,
                    src,
                    i,
                    x.translation,
                    x.rotation,
                    v,
                    w
                );
            }
        }
        match nodes[*i].world_transform() {
            Some(t) => check_pose("pose after a velocity update", &t, &m.world(*i), tol)?,
            None => return Err(format!("{}: node {} reports no pose", what, i)),
        }
    }
    Ok(())
}
fn c04_case<T: Sc>(mut m: Model, ctx: &mut Ctx) -> Result<(), String> {
    round::<T>(&mut m);
    for v in lists(&m) {
        let nodes = build::<T>(&m);
        ctx.note(|| format!("{} {:?}", T::NAME, v));
        vel_check(&m, &nodes, &view(&nodes, v), &format!("{:?}", v))?;
        ctx.state_hash(m.key());
        ctx.step();
    }
    // outdated caches
    let nodes = build::<T>(&m);
    let vs = lists(&m);
    for (k, v) in vs.iter().enumerate().step_by(2) {
        shake(&mut m, &nodes, k);
        vel_check(&m, &nodes, &view(&nodes, *v), &format!("moved {:?}", v))?;
        ctx.state_hash(m.key());
        ctx.step();
    }
    ctx.count("robots");
    Ok(())
}
fn c04_numeric(m: &Model) -> Result<(), String> {
    // the model's velocities are the derivatives of its poses
    for i in 0..m.nodes.len() {
        let (a, b) = (m.velocity(i), m.velocity_numeric(i));
        let speed = m.nodes.iter().map(|n| n.qd.abs()).sum::<f64>() + 1.0;
        let tol = 1e-6 * extent(m) * speed.powi(3);
        assert!(norm(sub(a.0, b.0)) < tol && norm(sub(a.1, b.1)) < tol, "the model is wrong: {:?} {:?}", a, b);
    }
    Ok(())
}
fn vel_hist_models() -> Vec<Model> {
    let mut v = hist_models();
    // a resting root, a resting tip
    for k in 0..3 {
        let mut m = v[k].clone();
        m.nodes[0].qd = 0.;
        m.nodes[3].qd = 0.;
        v.push(m);
    }
    v
}
fn vel_alphabet(m: &Model) -> Vec<Op> {
    let n = m.nodes.len();
    let mut v = hist_alphabet(m);
    v.retain(|o| !matches!(o, Op::Jac(..) | Op::Update(View::Part(..))));
    v.push(Op::Vel(View::Tree(0)));
    v.push(Op::Vel(View::Tree(1)));
    v.push(Op::Vel(View::End(n - 1)));
    v.push(Op::Vel(View::Part(2, 1)));
    v
}
fn c04_hist(op: Op, _b: &Model, m: &Model, nodes: &[Node<f64>], _s: &mut (), ctx: &mut Ctx) -> Result<(), String> {
    if let Op::Vel(v) = op {
        let speed = m.nodes.iter().map(|n| n.qd.abs()).sum::<f64>() + 1.0;
        let tol = tol::<f64>(m) * speed;
        for i in view_nodes(m, v) {
            let (a, w) = m.velocity(i);
            match nodes[i].world_velocity() {
                Some(x) => ensure!(
                    (0..3).all(|r| near((x.translation[r] - a[r]).abs(), tol) && near((x.rotation[r] - w[r]).abs(), tol)),
                    "velocity of node {} is {:?} {:?} but should be {:?} {:?}",
                    i,
                    x.translation,
                    x.rotation,
                    a,
                    w
                ),
                None => return Err(format!("node {} reports no velocity after an update", i)),
            }
        }
        vel_check(m, nodes, &view(nodes, v), &format!("{:?}", v))?;
        ctx.count("updates checked");
    }
    Ok(())
}
fn c04(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let mut s = vec![space("pair", pair_len(), "two nodes: axis x origin x position x kind products", |i, ctx| {
        let m = pair_model(&mut Dec(i));
        c04_numeric(&m)?;
        both!(c04_case, m, ctx)
    })];
    for n in 1..=(if q { 5 } else { 6 }) {
        s.push(tree_space(&format!("tree{}", n), n, if n < 6 { 2 } else { 1 }, "every view", |m, ctx| {
            c04_numeric(&m)?;
            both!(c04_case, m, ctx)
        }));
    }
    let sh = big_models();
    s.push(space("big", prod(&[sh.len(), 27, 2, DECOS]), "deep and wide (8 to 34 nodes) and binary (8 to 16) trees", move |i, ctx| {
        let m = big_model(&mut Dec(i), &sh);
        both!(c04_case, m, ctx)
    }));
    s.push(space("huge", HUGE, HUGE_TEXT, |i, ctx| both!(c04_case, huge_model(i), ctx)));
    s.push(space("speeds", 3u64.pow(4) * 27 * 3, "chains of up to 4 joints: every pattern of speeds {-1.5, 0, 2}", |i, ctx| {
        let mut d = Dec(i);
        let kinds = kinds3(3, d.take(27) as u64);
        let shape = d.take(3);
        let sh: Vec<Option<usize>> = match shape {
            0 => vec![None, Some(0), Some(1), Some(2)],
            1 => vec![None, Some(0), Some(0), Some(1)],
            _ => vec![None, Some(0), Some(1), Some(1)],
        };
        let mut ks = kinds.clone();
        ks.push(1);
        let mut m = tree(&sh, &ks, 0);
        for j in 0..4 {
            let qd = [-1.5, 0., 2.][d.take(3)];
            if m.nodes[j].kind.movable() {
                m.nodes[j].qd = qd;
            }
        }
        c04_numeric(&m)?;
        both!(c04_case, m, ctx)
    }));
    s.push(hist_space(
        "hist",
        "moves, origins, re-attachments, partial pose and velocity updates",
        vel_hist_models(),
        vel_alphabet,
        if q { 4 } else { 5 },
        || (),
        c04_hist,
    ));
    s.push(kept_space(vel_hist_models(), false, false, c04_ask));
    s.push(many_space(vel_hist_models(), false, false, c04_ask));
    s.push(made_space(t, made_velocities::<f64>, made_velocities::<f32>));
    s.push(sizes_space(t, "velocities", sizes_velocities::<f64>, sizes_velocities::<f32>));
    Check {
        id: "C04",
        spaces: s,
        assumptions: vec![
            "values outside of the alphabet behave like those in it",
            "joint velocities are set before a joint becomes a node, as k offers no way to set them afterwards",
        ],
    }
}

// ---------------------------------------------------------------- C05, C06

fn with_links(m: &mut Model, mut code: u64) {
    for i in 0..m.nodes.len() {
        m.nodes[i].link = palette_link(i, (code % 4) as usize);
        code /= 4;
    }
}
fn link_check<T: Sc>(m: &Model, nodes: &[Node<T>], idx: &[usize]) -> Result<(), String> {
    let tol = tol::<T>(m) * 2.;
    for i in idx {
        let w = m.world(*i);
        match nodes[*i].world_transform() {
            Some(t) => check_pose(&format!("node {}", i), &t, &w, tol)?,
            None => return Err(format!("node {} reports no pose after a link update", i)),
        }
        let l = nodes[*i].link();
        match (&m.nodes[*i].link, &*l) {
            (None, None) => {}
            (Some(ml), Some(l)) => {
                let get = |t: &Option<k::Isometry3<T>>| t.ok_or(format!("link {} has no pose", ml.name));
                check_pose("inertial frame", &get(l.inertial.world_transform())?, &w.mul(&ml.inertial.pose()), tol)?;
                check_pose("inertial origin", l.inertial.origin(), &ml.inertial.pose(), tol)?;
                ensure!(l.name == ml.name && l.inertial.mass.d() == T::of(ml.mass).d(), "link data changed");
                ensure!(l.inertial.inertia == link_inertia::<T>(ml), "inertia changed");
                ensure!(
                    l.visuals.len() == ml.visuals.len() && l.collisions.len() == ml.collisions.len(),
                    "elements lost"
                );
                for (k, v) in l.visuals.iter().enumerate() {
                    check_pose(&format!("visual {}", k), &get(v.world_transform())?, &w.mul(&ml.visuals[k].pose()), tol)?;
                    check_pose("visual origin", v.origin(), &ml.visuals[k].pose(), tol)?;
                    ensure!(v.name == element_name(ml, "v", k), "visual renamed");
                }
                for (k, v) in l.collisions.iter().enumerate() {
                    check_pose(&format!("collision {}", k), &get(v.world_transform())?, &w.mul(&ml.collisions[k].pose()), tol)?;
                    check_pose("collision origin", v.origin(), &ml.collisions[k].pose(), tol)?;
                    ensure!(v.name == element_name(ml, "c", k), "collision renamed");
                }
            }
            _ => return Err(format!("node {} gained or lost its link", i)),
        }
    }
    Ok(())
}
fn c05_case<T: Sc>(mut m: Model, ctx: &mut Ctx) -> Result<(), String> {
    round::<T>(&mut m);
    let nodes = build::<T>(&m);
    for (k, v) in lists(&m).into_iter().enumerate() {
        ctx.note(|| format!("{:?}", v));
        let c = view(&nodes, v);
        // only poses change
        let rest = k % 3 == 0;
        if rest {
            Chain::from_root(nodes[0].clone()).update_velocities();
        }
        let seen = |n: &Node<T>| {
            let j = n.joint();
            let v = j.world_velocity().map(|v| (v.translation, v.rotation));
            (j.joint_position(), j.joint_velocity(), v, *j.origin(), j.limits.map(|l| (l.min, l.max)), j.name.clone())
        };
        let before: Vec<_> = if rest { nodes.iter().map(seen).collect() } else { vec![] };
        c.update_link_transforms();
        link_check(&m, &nodes, &view_nodes(&m, v))?;
        for (b, n) in before.iter().zip(nodes.iter()) {
            let a = seen(n);
            ensure!(
                a == *b,
                "a link update changes more than poses: (position, velocity, world velocity, origin, limits, name) was {:?} and is {:?}",
                b,
                a
            );
        }
        ctx.state_hash(m.key());
        ctx.step();
        shake(&mut m, &nodes, k);
    }
    for (i, n) in nodes.iter().enumerate() {
        if let Some(q) = n.joint_position() {
            ensure!(q.d() == m.nodes[i].q, "a link update moved joint {}", i);
        }
    }
    ctx.count("robots");
    Ok(())
}
fn c06_case<T: Sc>(mut m: Model, ctx: &mut Ctx) -> Result<(), String> {
    round::<T>(&mut m);
    let nodes = build::<T>(&m);
    for (k, v) in lists(&m).into_iter().enumerate() {
        let idx = view_nodes(&m, v);
        let mass: f64 = idx.iter().filter_map(|i| m.nodes[*i].link.as_ref()).map(|l| l.mass).sum();
        if mass > 0. {
            let want = m.com(&idx);
            let c = view(&nodes, v);
            let got = k::center_of_mass(&c);
            let e = norm(sub([got[0].d(), got[1].d(), got[2].d()], want));
            ensure!(
                near(e, tol::<T>(&m) * 4.),
                "{:?}: centre of mass is {:?} but should be {:?}",
                v,
                got,
                want
            );
            ctx.state_hash(m.key());
            ctx.step();
            if k % 2 == 0 {
                // again, with fresh poses
                let got = k::center_of_mass(&c);
                ensure!(
                    near(norm(sub([got[0].d(), got[1].d(), got[2].d()], want)), tol::<T>(&m) * 4.),
                    "{:?}: centre of mass changes when asked twice",
                    v
                );
            }
        }
        shake(&mut m, &nodes, k);
    }
    for (i, n) in nodes.iter().enumerate() {
        if let Some(q) = n.joint_position() {
            ensure!(q.d() == m.nodes[i].q, "the centre of mass moved joint {}", i);
        }
    }
    ctx.count("robots");
    Ok(())
}
fn link_spaces(s: &mut Vec<Space>, q: bool, com: bool) {
    for n in 1..=(if q { 4 } else { 5 }) {
        let sh = shapes(n);
        let (k, l) = (3u64.pow(n as u32), 4u64.pow(n as u32));
        // all kinds with all link patterns
        s.push(space(
            &format!("links{}", n),
            sh.len() as u64 * k * l * DECOS as u64,
            &format!("all trees of {} nodes x 3^{} joint kinds x 4^{} links x {} decorations", n, n, n, DECOS),
            move |i, ctx| {
                let mut d = Dec(i);
                let shape = d.pick(&sh).clone();
                let kinds = kinds3(n, d.take(k as usize) as u64);
                let mut m = tree(&shape, &kinds, n % 2);
                let code = d.take(l as usize) as u64;
                decorate(&mut m, d.take(DECOS));
                with_links(&mut m, code);
                ctx.note(|| m.describe());
                if com {
                    c06_case::<f64>(m.clone(), ctx)?;
                    if i % 4 == 0 { c06_case::<f32>(m, ctx) } else { Ok(()) }
                } else {
                    c05_case::<f64>(m.clone(), ctx)?;
                    if i % 4 == 0 { c05_case::<f32>(m, ctx) } else { Ok(()) }
                }
            },
        ));
    }
    s.push(space(
        "pairlinks",
        pair_len() * 2,
        "two nodes with links: axis x origin x position x kind products",
        move |i, ctx| {
            let mut d = Dec(i);
            let code = [2 + 4 * 2, 3 + 4 * 1][d.take(2)];
            let mut m = pair_model(&mut d);
            with_links(&mut m, code);
            if com {
                both!(c06_case, m, ctx)
            } else {
                both!(c05_case, m, ctx)
            }
        },
    ));
    let sh = big_models();
    s.push(space("big", prod(&[sh.len(), 27, 2, DECOS]), "deep and wide (8 to 34 nodes) and binary (8 to 16) trees", move |i, ctx| {
        let mut m = big_model(&mut Dec(i), &sh);
        for j in 0..m.nodes.len() {
            m.nodes[j].link = palette_link(j, (j * 3 + i as usize) % 4);
        }
        if com {
            both!(c06_case, m, ctx)
        } else {
            both!(c05_case, m, ctx)
        }
    }));
    s.push(space(
        "elements",
        prod(&[27, 9, 9]),
        "three nodes in a row or side by side, whose links have 0 to 70 visual and as many collision elements",
        move |i, ctx| {
            let mut d = Dec(i);
            let kinds = kinds3(3, d.take(27) as u64);
            let (nv, nc) = (*d.pick(&COUNTS), *d.pick(&COUNTS));
            let mut m = tree(&[None, Some(0), Some((nv + nc) % 2)], &kinds, 1);
            for j in 0..3 {
                m.nodes[j].link = Some(long_link(3 * j, if j == 1 { nc } else { nv }, if j == 1 { nv } else { nc }));
            }
            if com {
                both!(c06_case, m, ctx)
            } else {
                both!(c05_case, m, ctx)
            }
        },
    ));
    s.push(space("huge", HUGE, HUGE_TEXT, move |i, ctx| {
        let mut m = huge_model(i);
        for j in 0..m.nodes.len() {
            m.nodes[j].link = palette_link(j, (j * 3 + i as usize) % 4);
        }
        if com {
            both!(c06_case, m, ctx)
        } else {
            both!(c05_case, m, ctx)
        }
    }));
}
fn link_hist_models() -> Vec<Model> {
    let mut v = hist_models();
    for (k, m) in v.iter_mut().enumerate() {
        with_links(m, [1 + 4 * 2 + 16 * 3 + 64 * 2, 2 + 4 * 0 + 16 * 1 + 64 * 2, 0 + 4 * 2 + 16 * 2 + 64 * 1][k % 3]);
    }
    v
}
fn link_alphabet(m: &Model) -> Vec<Op> {
    let n = m.nodes.len();
    let mut v = hist_alphabet(m);
    v.retain(|o| !matches!(o, Op::Jac(..) | Op::Update(View::Tree(1))));
    v.push(Op::Links(View::Tree(0)));
    v.push(Op::Links(View::End(n - 1)));
    v.push(Op::Links(View::Part(2, 1)));
    v.push(Op::Com(View::Tree(0)));
    v.push(Op::Vel(View::Tree(0)));
    v
}
fn c05_hist(op: Op, _b: &Model, m: &Model, nodes: &[Node<f64>], _s: &mut (), ctx: &mut Ctx) -> Result<(), String> {
    if let Op::Links(v) = op {
        link_check(m, nodes, &view_nodes(m, v))?;
        ctx.count("updates checked");
    }
    Ok(())
}
fn c06_hist(op: Op, _b: &Model, m: &Model, nodes: &[Node<f64>], _s: &mut (), ctx: &mut Ctx) -> Result<(), String> {
    if let Op::Com(v) = op {
        let want = m.com(&view_nodes(m, v));
        let got = k::center_of_mass(&view(nodes, v));
        ensure!(
            near(norm(sub([got[0], got[1], got[2]], want)), tol::<f64>(m) * 4.),
            "centre of mass is {:?} but should be {:?}",
            got,
            want
        );
        ctx.count("centres checked");
    } else {
        // a partial chain that needs poses nobody has computed
        let v = View::Part(2, 1);
        let want = m.com(&view_nodes(m, v));
        let got = k::center_of_mass(&view(nodes, v));
        ensure!(
            near(norm(sub([got[0], got[1], got[2]], want)), tol::<f64>(m) * 4.),
            "centre of mass of a part is {:?} but should be {:?}",
            got,
            want
        );
    }
    Ok(())
}
fn c05(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let mut s = vec![];
    link_spaces(&mut s, q, false);
    s.push(hist_space("hist", "moves, origins, partial and link updates", link_hist_models(), link_alphabet, if q { 4 } else { 5 }, || (), c05_hist));
    s.push(kept_space(link_hist_models(), false, true, c05_ask));
    s.push(many_space(link_hist_models(), false, true, c05_ask));
    s.push(sizes_space(t, "links", sizes_links::<f64>, sizes_links::<f32>));
    Check {
        id: "C05",
        spaces: s,
        assumptions: vec!["values outside of the alphabet behave like those in it", "f32 on every fourth tree with links, on all pairs and big trees"],
    }
}
fn c06(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let mut s = vec![];
    link_spaces(&mut s, q, true);
    s.push(hist_space("hist", "moves, origins, partial and link updates", link_hist_models(), link_alphabet, if q { 4 } else { 5 }, || (), c06_hist));
    s.push(kept_space(link_hist_models(), false, true, c06_ask));
    s.push(many_space(link_hist_models(), false, true, c06_ask));
    s.push(sizes_space(t, "masses", sizes_com::<f64>, sizes_com::<f32>));
    Check {
        id: "C06",
        spaces: s,
        assumptions: vec!["values outside of the alphabet behave like those in it", "f32 on every fourth tree with links, on all pairs and big trees"],
    }
}

// ---------------------------------------------------------------- C07

/// What a node may report: the poses and velocities that were true since its own last change
#[derive(Default)]
struct Seen {
    poses: Vec<Vec<Pose>>,
    vels: Vec<Vec<(V3, V3)>>,
    updated: bool,
    vel_updated: bool,
    init: bool,
}
fn c07_models() -> Vec<Model> {
    let mut v = hist_models();
    v.truncate(2);
    // mimic: 3 follows 1
    v[0].nodes[3].mimic = Some((1, -0.5, 0.3));
    v[0].nodes[2].limits = Some((-0.5, 1.0));
    v[1].nodes[3].mimic = Some((0, 2.0, 0.1));
    v[1].nodes[1].limits = Some((-2.0, 0.5));
    // a chain of mimics, and a follower above its driver
    let mut m = tree(&[None, Some(0), Some(1), Some(0)], &[1, 1, 1, 2], 1);
    m.nodes[0].mimic = Some((2, 1.0, -0.2));
    m.nodes[3].mimic = Some((0, 0.5, 0.0));
    v.push(m);
    // joints that rest below joints that move, and the other way round
    let plain = v.clone();
    for k in 0..2 {
        for m in &plain {
            let mut m = m.clone();
            for i in 0..m.nodes.len() {
                if i % 2 == k {
                    m.nodes[i].qd = 0.;
                }
            }
            v.push(m);
        }
    }
    for m in v.iter_mut() {
        // start in step
        for i in 0..m.nodes.len() {
            if m.nodes[i].mimic.is_none() && m.nodes[i].kind.movable() {
                let w = m.clamped(i, m.nodes[i].q);
                m.apply(&w);
            }
        }
    }
    v
}
fn c07_alphabet(m: &Model) -> Vec<Op> {
    let n = m.nodes.len();
    let mut v = vec![];
    for i in 0..n {
        if m.nodes[i].kind.movable() && m.nodes[i].mimic.is_none() {
            v.push(Op::Set(i, 0.37 + 0.11 * i as f64));
            v.push(Op::Clamp(i, 5.0));
        }
    }
    v.push(Op::Raw(n - 1, 0.9));
    v.push(Op::Set(1, 0.99));
    v.push(Op::Org(0, 6));
    v.push(Op::Org(2, 3));
    v.push(Op::Org(n - 1, 2));
    v.push(Op::Turn(1));
    v.push(Op::Nudge(1, false));
    v.push(Op::Nudge(1, true));
    v.push(Op::Vec(View::Tree(0), 0.2));
    v.push(Op::Update(View::Tree(0)));
    v.push(Op::Update(View::Part(2, 1)));
    v.push(Op::Vel(View::Tree(0)));
    v.push(Op::Vel(View::End(n - 1)));
    v.push(Op::Ik(2, 0));
    v.push(Op::Jac(2, 1));
    v
}
fn c07_hist(op: Op, b: &Model, m: &Model, nodes: &[Node<f64>], s: &mut Seen, ctx: &mut Ctx) -> Result<(), String> {
    let n = m.nodes.len();
    if !s.init {
        s.init = true;
        s.poses = (0..n).map(|i| vec![b.world(i)]).collect();
        s.vels = (0..n).map(|i| vec![b.velocity(i)]).collect();
    }
    // any call that computes
    match op {
        Op::Update(_) | Op::Com(_) | Op::Links(_) | Op::Jac(..) | Op::Ik(..) => s.updated = true,
        Op::Vel(_) => {
            s.updated = true;
            s.vel_updated = true
        }
        _ => {}
    }
    for i in 0..n {
        let changed = b.nodes[i].q.to_bits() != m.nodes[i].q.to_bits()
            || b.nodes[i].org.pose() != m.nodes[i].org.pose()
            || matches!(op, Op::Org(j, _) | Op::Turn(j) if j == i);
        if changed {
            s.poses[i].clear();
            s.vels[i].clear();
            ctx.count("own changes");
        }
        s.poses[i].push(m.world(i));
        s.vels[i].push(m.velocity(i));
        let tol = tol::<f64>(m);
        if let Some(t) = nodes[i].world_transform() {
            ensure!(s.updated, "node {} reports a pose before any update", i);
            let g = pose_of(&t);
            ensure!(
                s.poses[i].iter().any(|p| near(pose_err(p, &g), tol)),
                "node {} still reports the pose\n  {:?}\nfrom before its last change",
                i,
                g
            );
            ctx.count("poses reported");
        }
        if let Some(v) = nodes[i].world_velocity() {
            ensure!(s.vel_updated, "node {} reports a velocity before any update", i);
            let g = ([v.translation[0], v.translation[1], v.translation[2]], [v.rotation[0], v.rotation[1], v.rotation[2]]);
            ensure!(
                s.vels[i].iter().any(|p| near(norm(sub(p.0, g.0)) + norm(sub(p.1, g.1)), tol * 10.)),
                "node {} still reports the velocity {:?} from before its last change",
                i,
                g
            );
            ctx.count("velocities reported");
        }
    }
    // an update brings back the current value for all nodes of the chain
    match op {
        Op::Update(v) | Op::Vel(v) => {
            for i in view_nodes(m, v) {
                match nodes[i].world_transform() {
                    Some(t) => check_pose(&format!("node {}", i), &t, &m.world(i), tol::<f64>(m))?,
                    None => return Err(format!("node {} reports no pose after an update", i)),
                }
                if let Op::Vel(_) = op {
                    let w = m.velocity(i);
                    match nodes[i].world_velocity() {
                        Some(v) => ensure!(
                            (0..3).all(|r| near((v.translation[r] - w.0[r]).abs(), tol::<f64>(m) * 10.)
                                && near((v.rotation[r] - w.1[r]).abs(), tol::<f64>(m) * 10.)),
                            "velocity of node {}",
                            i
                        ),
                        None => return Err(format!("node {} reports no velocity after an update", i)),
                    }
                }
            }
        }
        _ => {}
    }
    Ok(())
}
/// nothing is reported, or what is true now
fn c07_silent<T: Sc>(m: &Model, i: usize, n: &Node<T>) -> Result<(), String> {
    if let Some(t) = n.world_transform() {
        check_pose(&format!("pose of node {} after its own change", i), &t, &m.world(i), tol::<T>(m))?;
    }
    if let Some(v) = n.world_velocity() {
        let w = m.velocity(i);
        ensure!(
            (0..3).all(|r| near((v.translation[r].d() - w.0[r]).abs(), tol::<T>(m) * 10.) && near((v.rotation[r].d() - w.1[r]).abs(), tol::<T>(m) * 10.)),
            "node {} reports a velocity from before its own change",
            i
        );
    }
    Ok(())
}
fn c07_current<T: Sc>(m: &Model, which: &[usize], nodes: &[Node<T>], vel: bool) -> Result<(), String> {
    for i in which {
        ensure!(nodes[*i].world_transform().is_some(), "node {} reports no pose after an update", i);
        check_pose(&format!("pose of node {}", i), &nodes[*i].world_transform().unwrap(), &m.world(*i), tol::<T>(m))?;
        if vel {
            ensure!(nodes[*i].world_velocity().is_some(), "node {} reports no velocity after an update", i);
            c07_silent(m, *i, &nodes[*i])?;
        }
    }
    Ok(())
}
/// a change of node i in one of several ways; returns the nodes it changes
fn c07_change<T: Sc>(m: &mut Model, nodes: &[Node<T>], i: usize, how: usize, k: usize) -> Vec<usize> {
    let old: Vec<u64> = m.nodes.iter().map(|n| n.q.to_bits()).collect();
    let x = 0.25 + 0.125 * (k % 2) as f64;
    let movable = m.nodes[i].kind.movable();
    let mut own = false;
    match how {
        0 if movable => {
            if nodes[i].set_joint_position(T::of(x)).is_ok() && m.nodes[i].mimic.is_none() {
                let w = m.checked(i, x).unwrap_or_default();
                m.apply(&w);
            }
        }
        1 if movable => {
            nodes[i].set_joint_position_clamped(T::of(x));
            if m.nodes[i].mimic.is_none() {
                let w = m.clamped(i, x);
                m.apply(&w);
            }
        }
        2 if movable => {
            nodes[i].set_joint_position_unchecked(T::of(x));
            m.nodes[i].q = x;
        }
        3 if movable => {
            let c = Chain::from_nodes(vec![nodes[i].clone()]);
            c.set_joint_positions_clamped(&[T::of(x)]);
            if m.nodes[i].mimic.is_none() {
                let w = m.clamped(i, x);
                m.apply(&w);
            }
        }
        _ => {
            own = true;
            m.nodes[i].org.t[0] = 0.5 * x;
            nodes[i].set_origin(iso(&m.nodes[i].org));
        }
    }
    (0..m.nodes.len()).filter(|j| old[*j] != m.nodes[*j].q.to_bits() || (own && *j == i)).collect()
}
const C07_SIZES: [usize; 10] = [9, 17, 33, 64, 65, 129, 255, 256, 257, 300];
fn c07_large(mut d: Dec, ctx: &mut Ctx) -> Result<(), String> {
    let n = *d.pick(&C07_SIZES);
    let (shape, rows, how, at, up) = (d.take(3), d.take(4), d.take(5), d.take(5), d.take(4));
    let pat = [[1u8, 2, 1], [1, 1, 0]][d.take(2)];
    let sh: Vec<Option<usize>> = (0..n).map(|i| if i == 0 { None } else { Some([i - 1, 0, (i - 1) / 2][shape]) }).collect();
    let kinds: Vec<u8> = (0..n).map(|i| pat[i % 3]).collect();
    let mut m = tree(&sh, &kinds, 0);
    for x in m.nodes.iter_mut() {
        x.org.t = scale(x.org.t, 0.1);
        x.limits = None;
        if x.kind.movable() {
            x.q = 0.0;
            x.qd = 0.25;
        }
    }
    // followers: none, rows of ten, all of the first, a row of all
    for i in 1..n {
        let driver = match rows {
            1 if i % 10 != 0 => i - 1,
            2 => 0,
            3 => i - 1,
            _ => continue,
        };
        if m.nodes[i].kind.movable() && m.nodes[driver].kind.movable() {
            m.nodes[i].mimic = Some((driver, if i % 2 == 0 { 1.0 } else { -1.0 }, 0.0));
        }
    }
    let i = [0, 1, n / 2, n - 2, n - 1][at];
    ctx.note(|| format!("{} nodes, shape {}, rows {}, change {} of node {}, update {}", n, shape, rows, how, i, up));
    let nodes = build::<f64>(&m);
    let all = Chain::from_root(nodes[0].clone());
    let arm = SerialChain::from_end(&nodes[n - 1]);
    let path = m.path(n - 1);
    for j in 0..n {
        ensure!(nodes[j].world_transform().is_none() && nodes[j].world_velocity().is_none(), "node {} reports something before any update", j);
    }
    for k in 0..3 {
        if k < 2 {
            if up % 2 == 0 {
                all.update_velocities();
            } else {
                all.update_velocities();
                all.update_link_transforms();
            }
        } else {
            arm.update_velocities();
        }
        let reach: Vec<usize> = if k < 2 { (0..n).collect() } else { path.clone() };
        c07_current(&m, &reach, &nodes, true)?;
        let changed = c07_change(&mut m, &nodes, i, how, k);
        for j in &changed {
            c07_silent(&m, *j, &nodes[*j])?;
        }
        ctx.count("own changes");
        ctx.step();
        if up >= 2 {
            arm.update_transforms();
            c07_current(&m, &path, &nodes, false)?;
            for j in &changed {
                c07_silent(&m, *j, &nodes[*j])?;
            }
        }
        ctx.state_hash(m.key());
    }
    Ok(())
}
fn c07_many(mut d: Dec, ctx: &mut Ctx) -> Result<(), String> {
    let mut m = tree(&[None, Some(0), Some(1), Some(0)], &[1, 1, 2, 1], 0);
    for x in m.nodes.iter_mut() {
        x.limits = None;
        x.q = 0.0;
        x.qd = 0.5;
    }
    m.nodes[3].mimic = Some((1, 2.0, 0.0));
    let (how, i, between, times) = (d.take(5), d.take(4), d.take(3), *d.pick(&MANY));
    ctx.note(|| format!("change {} of node {} x {}, in between: {}", how, i, times, ["nothing", "updates", "updates of a part"][between]));
    let nodes = build::<f64>(&m);
    let all = Chain::from_root(nodes[0].clone());
    let part = SerialChain::from_end(&nodes[2]);
    all.update_velocities();
    for k in 0..times {
        let changed = c07_change(&mut m, &nodes, i, how, k + times);
        if k + 1 == times || between > 0 {
            for j in &changed {
                c07_silent(&m, *j, &nodes[*j])?;
            }
        }
        if k + 1 < times && (times < 300 || k % 64 == 0) {
            match between {
                1 => {
                    all.update_velocities();
                }
                2 => {
                    part.update_transforms();
                }
                _ => {}
            }
        }
    }
    // how often the poses were computed
    for _ in 0..times.min(2000) {
        all.update_velocities();
    }
    c07_current(&m, &[0, 1, 2, 3], &nodes, true)?;
    let changed = c07_change(&mut m, &nodes, i, how, times + 1);
    for j in &changed {
        c07_silent(&m, *j, &nodes[*j])?;
    }
    ctx.step();
    ctx.state_hash(m.key());
    Ok(())
}
const C07_MOVES: [f64; 8] = [1e-3, 1e-6, 1e-9, 1e-12, -1e-4, -1e-7, -1e-10, 0.];
/// after a move however small, a node reports nothing from before it
fn c07_sizes<T: Sc>(mut d: Dec, ctx: &mut Ctx) -> Result<(), String> {
    let mut m = tree(&[None, Some(0), Some(1)], &[1, 1, 1], 0);
    let (slides, len, q) = (d.take(2) == 1, LENGTHS[d.take(7)], ANGLES[d.take(8)]);
    let (how, by, vel) = (d.take(6), d.take(C07_MOVES.len()), d.take(2) == 1);
    for k in 0..3 {
        let n = &mut m.nodes[k];
        n.kind = if slides { Kind::Lin(unit([1., 2., -0.5])) } else { Kind::Rot(unit([1., 2., -0.5])) };
        n.org.t = scale([0.3, -0.7, 0.6], len);
        n.q = q * if slides { len } else { 1. };
        n.qd = 0.25 * if slides { len } else { 1. };
        n.limits = None;
        n.mimic = None;
    }
    if how == 5 {
        m.nodes[1].mimic = Some((0, 1., 0.));
    }
    round::<T>(&mut m);
    ctx.note(|| format!("{} {} change {} by {}", T::NAME, m.describe(), how, C07_MOVES[by]));
    let nodes = build::<T>(&m);
    let c = Chain::from_root(nodes[0].clone());
    if vel {
        c.update_velocities();
    } else {
        c.update_transforms();
    }
    let old = m.nodes[1].q;
    let x = if C07_MOVES[by] == 0. {
        T::of(old).next_up()
    } else {
        T::of(if old == 0. { C07_MOVES[by] } else { old * (1. + C07_MOVES[by]) })
    };
    let shift = old == x.d() || how == 4;
    if shift {
        let t = m.nodes[1].org.t[1];
        m.nodes[1].org.t[1] = if C07_MOVES[by] == 0. { T::of(t).next_down().d() } else { T::of(t * (1. + C07_MOVES[by])).d() };
        nodes[1].set_origin(iso(&m.nodes[1].org));
    } else {
        match how {
            0 => nodes[1].set_joint_position(x).map_err(|e| e.to_string())?,
            1 => nodes[1].set_joint_position_clamped(x),
            2 => nodes[1].set_joint_position_unchecked(x),
            3 => Chain::from_nodes(vec![nodes[1].clone()]).set_joint_positions(&[x]).map_err(|e| e.to_string())?,
            // its driver
            _ => nodes[0].set_joint_position(x).map_err(|e| e.to_string())?,
        }
        m.nodes[1].q = x.d();
        if how == 5 {
            m.nodes[0].q = x.d();
        }
    }
    ctx.step();
    ctx.state_hash(m.key());
    let f = fine::<T>(&m);
    for n in if how == 5 && !shift { &[0usize, 1][..] } else { &[1] } {
        if let Some(t) = nodes[*n].world_transform() {
            fine_pose(&format!("pose of node {} after its own change", n), &t, &m.world(*n), &f, 0.)?;
        }
        if let Some(v) = nodes[*n].world_velocity() {
            let w = m.velocity(*n);
            let speed = if slides { 0.25 * len } else { 0.25 };
            for r in 0..3 {
                ensure!(
                    near((v.rotation[r].d() - w.1[r]).abs(), 3. * f.dir * speed)
                        && near((v.translation[r].d() - w.0[r]).abs(), 3. * (f.len + f.dir) * speed),
                    "node {} reports a velocity from before its own change",
                    n
                );
            }
        }
    }
    Ok(())
}
/// a joint that served before reports nothing of its former life once it was changed
fn c07_made<T: Sc>(seq: &[Make], ctx: &mut Ctx) -> Result<(), String> {
    let mut m = tree(&[None, Some(0), Some(1)], &[1, 1, 0], 0);
    m.nodes[1].kind = Kind::Rot([0., 0., 1.]);
    (m.nodes[1].q, m.nodes[1].qd) = (0.625, 0.25);
    let mut j = joint::<T>(&m.nodes[1]);
    // it reports nothing from before these
    let mut silent = true;
    for op in seq {
        let movable = m.nodes[1].kind.movable();
        make(*op, &mut m.nodes[1], &mut j)?;
        match op {
            Make::Set(_) | Make::Clamp(_) | Make::Unchecked(_) => silent |= movable,
            Make::Type(_) => silent |= m.nodes[1].kind.movable(),
            Make::Origin(_) => silent = true,
            Make::Served => silent = false,
            _ => {}
        }
        if silent {
            ensure!(j.world_transform().is_none(), "after {:?}: the joint reports a pose from before its change", op);
            ensure!(j.world_velocity().is_none(), "after {:?}: the joint reports a velocity from before its change", op);
        }
        ctx.step();
    }
    let node = Node::new(j);
    if silent {
        ensure!(node.world_transform().is_none() && node.world_velocity().is_none(), "the new node reports something from before its change");
    }
    ctx.state_hash(m.key());
    Ok(())
}
fn c07(t: Tier) -> Check {
    let q = t == Tier::Quick;
    Check {
        id: "C07",
        spaces: vec![
            space(
                "large",
                prod(&[C07_SIZES.len(), 3, 4, 5, 5, 4, 2]),
                "chains, stars and binary trees of 9 to 300 nodes, with rows and bunches of followers: 5 ways to change a node x which x updates of all and of a path",
                |i, ctx| c07_large(Dec(i), ctx),
            ),
            space(
                "sizes",
                prod(&[2, 7, 8, 6, C07_MOVES.len(), 2]) * 2,
                "joints of all lengths and positions (1e-9 to 1e9) x 6 ways to change them a little, down to the last digit, f32 and f64",
                |i, ctx| {
                    if i % 2 == 1 {
                        c07_sizes::<f32>(Dec(i / 2), ctx)
                    } else {
                        c07_sizes::<f64>(Dec(i / 2), ctx)
                    }
                },
            ),
            space(
                "many",
                prod(&[5, 4, 3, MANY.len()]),
                "5 ways to change a node, 255 to 257 and 65535 to 65537 times in a row, with and without updates in between",
                |i, ctx| c07_many(Dec(i), ctx),
            ),
            space("made", (MAKES.len() as u64).pow(if q { 4 } else { 5 }), "joints that were part of another robot, copied and changed", move |i, ctx| {
                let mut d = Dec(i);
                let seq: Vec<Make> = (0..if q { 4 } else { 5 }).map(|_| *d.pick(&MAKES)).collect();
                ctx.note(|| format!("{:?}", seq));
                c07_made::<f64>(&seq, ctx)?;
                c07_made::<f32>(&seq, ctx)
            }),
            hist_space(
            "hist",
            "single, clamped, unchecked, vector, origin, mimic-driven and IK changes, interleaved with whole and partial updates",
            c07_models(),
            c07_alphabet,
            if q { 4 } else { 5 },
            Seen::default,
            c07_hist,
        )],
        assumptions: vec!["histories of the given length from never-updated robots; values in the alphabet"],
    }
}

fn main() {
    main_with(|id, t| match id {
        "C01" => Some(c01(t)),
        "C02" => Some(c02(t)),
        "C03" => Some(c03(t)),
        "C04" => Some(c04(t)),
        "C05" => Some(c05(t)),
        "C06" => Some(c06(t)),
        "C07" => Some(c07(t)),
        _ => None,
    })
}
