//! Builds real k objects from a model, and compares them.
use crate::model::*;
use k::joint::{Mimic, Range};
use k::link::*;
use k::{Chain, Isometry3, Joint, JointType, Node, SerialChain, Translation3, UnitQuaternion, Vector3};
use nalgebra as na;
use simba::scalar::SubsetOf;

pub trait Sc: na::RealField + SubsetOf<f64> + Copy + Default + Send + Sync + 'static {
    const TOL: f64;
    const NAME: &'static str;
    fn of(x: f64) -> Self;
    fn d(self) -> f64;
    fn next_up(self) -> Self;
    fn next_down(self) -> Self;
    fn bits(self) -> u64;
}
impl Sc for f64 {
    const TOL: f64 = 1e-9;
    const NAME: &'static str = "f64";
    fn of(x: f64) -> Self {
        x
    }
    fn d(self) -> f64 {
        self
    }
    fn next_up(self) -> Self {
        f64::next_up(self)
    }
    fn next_down(self) -> Self {
        f64::next_down(self)
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}
impl Sc for f32 {
    const TOL: f64 = 3e-4;
    const NAME: &'static str = "f32";
    fn of(x: f64) -> Self {
        x as f32
    }
    fn d(self) -> f64 {
        self as f64
    }
    fn next_up(self) -> Self {
        f32::next_up(self)
    }
    fn next_down(self) -> Self {
        f32::next_down(self)
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}

pub fn v3<T: Sc>(v: V3) -> Vector3<T> {
    Vector3::new(T::of(v[0]), T::of(v[1]), T::of(v[2]))
}
pub fn axis<T: Sc>(v: V3) -> na::Unit<Vector3<T>> {
    na::Unit::new_normalize(v3(v))
}
pub fn iso<T: Sc>(o: &Org) -> Isometry3<T> {
    Isometry3::from_parts(
        Translation3::new(T::of(o.t[0]), T::of(o.t[1]), T::of(o.t[2])),
        UnitQuaternion::from_axis_angle(&axis(o.axis), T::of(o.angle)),
    )
}
/// an arbitrary pose, through its rotation vector
pub fn iso_of_pose<T: Sc>(p: &Pose) -> Isometry3<T> {
    let w = log_rot(&p.r);
    Isometry3::from_parts(
        Translation3::new(T::of(p.p[0]), T::of(p.p[1]), T::of(p.p[2])),
        UnitQuaternion::from_scaled_axis(v3(w)),
    )
}
pub fn pose_of<T: Sc>(i: &Isometry3<T>) -> Pose {
    let q = i.rotation.quaternion();
    let (x, y, z, w) = (q.i.d(), q.j.d(), q.k.d(), q.w.d());
    let r = [
        [
            w * w + x * x - y * y - z * z,
            2. * (x * y - w * z),
            2. * (x * z + w * y),
        ],
        [
            2. * (x * y + w * z),
            w * w - x * x + y * y - z * z,
            2. * (y * z - w * x),
        ],
        [
            2. * (x * z - w * y),
            2. * (y * z + w * x),
            w * w - x * x - y * y + z * z,
        ],
    ];
    let t = &i.translation.vector;
    Pose {
        r,
        p: [t[0].d(), t[1].d(), t[2].d()],
    }
}
/// Largest coordinate in a model: tolerances are relative to it
pub fn extent(m: &Model) -> f64 {
    let mut e = 1.0;
    for n in &m.nodes {
        e += norm(n.org.t);
        if let Kind::Lin(_) = n.kind {
            e += n.q.abs();
        }
    }
    e
}
/// f32 cannot resolve large angles: sin(100f32) is off by 100 * eps
pub fn tol<T: Sc>(m: &Model) -> f64 {
    let a = m
        .nodes
        .iter()
        .map(|n| if matches!(n.kind, Kind::Rot(_)) { n.q.abs() } else { 0. })
        .fold(0., f64::max);
    T::TOL * extent(m) * (1.0 + a / 10.)
}
pub fn pose_err(a: &Pose, b: &Pose) -> f64 {
    let mut e = norm(sub(a.p, b.p));
    for i in 0..3 {
        for j in 0..3 {
            let d = (a.r[i][j] - b.r[i][j]).abs();
            if !(d <= e) {
                e = d;
            }
        }
    }
    e
}
/// NaN-safe
pub fn near(err: f64, tol: f64) -> bool {
    err <= tol
}
pub fn check_pose<T: Sc>(what: &str, got: &Isometry3<T>, want: &Pose, tol: f64) -> Result<(), String> {
    let g = pose_of(got);
    // the rotation part must not mask translation: both bounded
    let e = pose_err(&g, want);
    if !near(e, tol) {
        return Err(format!(
            "{}: pose is\n  {:?}\nbut should be\n  {:?}\n  (error {:e}, tolerance {:e})",
            what, g, want, e, tol
        ));
    }
    Ok(())
}

pub fn jt<T: Sc>(k: &Kind) -> JointType<T> {
    match k {
        Kind::Fixed => JointType::Fixed,
        Kind::Rot(a) => JointType::Rotational { axis: axis(*a) },
        Kind::Lin(a) => JointType::Linear { axis: axis(*a) },
    }
}
pub fn joint<T: Sc>(n: &MNode) -> Joint<T> {
    let mut j = Joint::new(&n.name, jt(&n.kind));
    j.set_origin(iso(&n.org));
    if n.kind.movable() {
        j.set_joint_position_unchecked(T::of(n.q));
        if n.qd != 0. {
            j.set_joint_velocity(T::of(n.qd)).unwrap();
        }
    }
    j.limits = n.limits.map(|(a, b)| Range::new(T::of(a), T::of(b)));
    j
}
/// names of elements may be equal, and may be missing
pub fn element_name(l: &MLink, kind: &str, i: usize) -> String {
    if i % 3 == 2 {
        String::new()
    } else if l.name.ends_with('3') || l.name.ends_with('5') {
        // visual and collision elements of the same name
        format!("{}_{}", l.name, i / 2)
    } else {
        format!("{}_{}{}", l.name, kind, i / 2)
    }
}
pub fn link_inertia<T: Sc>(l: &MLink) -> na::Matrix3<T> {
    let x = |v: f64| T::of(v * (0.5 + l.mass));
    na::Matrix3::new(x(2.), x(0.25), x(-0.5), x(0.25), x(3.), x(0.125), x(-0.5), x(0.125), x(4.))
}
pub fn link<T: Sc>(l: &MLink) -> Link<T> {
    let mut b = LinkBuilder::new().name(&l.name).inertial(Inertial::new(
        iso(&l.inertial),
        T::of(l.mass),
        link_inertia(l),
    ));
    for (i, o) in l.visuals.iter().enumerate() {
        b = b.add_visual(Visual::new(
            element_name(l, "v", i),
            iso(o),
            Geometry::Sphere {
                radius: T::of(0.1 + i as f64),
            },
            Material::default(),
        ));
    }
    for (i, o) in l.collisions.iter().enumerate() {
        b = b.add_collision(Collision::new(
            element_name(l, "c", i),
            iso(o),
            Geometry::Box {
                depth: T::of(0.1),
                width: T::of(0.2),
                height: T::of(0.3 + i as f64),
            },
        ));
    }
    b.finalize()
}

/// The nodes of a robot. A driver keeps its followers alive, so that a joint which mimics its own
/// descendant would never be freed: the tree is taken apart when a case ends.
pub struct Robot<T: Sc>(pub Vec<Node<T>>);
impl<T: Sc> std::ops::Deref for Robot<T> {
    type Target = Vec<Node<T>>;
    fn deref(&self) -> &Vec<Node<T>> {
        &self.0
    }
}
impl<T: Sc> Drop for Robot<T> {
    fn drop(&mut self) {
        if std::thread::panicking() {
            return;
        }
        let nodes = std::mem::take(&mut self.0);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for n in &nodes {
                let children = n.children().clone();
                for c in children {
                    c.remove_parent(n);
                }
            }
        }));
    }
}

/// The real tree of a model; nodes are attached in index order.
pub fn build<T: Sc>(m: &Model) -> Robot<T> {
    let nodes: Vec<Node<T>> = m.nodes.iter().map(|n| Node::new(joint(n))).collect();
    for (i, n) in m.nodes.iter().enumerate() {
        if let Some(p) = n.parent {
            nodes[i].set_parent(&nodes[p]);
        }
    }
    for (i, n) in m.nodes.iter().enumerate() {
        if let Some((d, mu, o)) = n.mimic {
            nodes[i].set_mimic_parent(&nodes[d], Mimic::new(T::of(mu), T::of(o)));
        }
        if let Some(l) = &n.link {
            nodes[i].set_link(Some(link(l)));
        }
    }
    Robot(nodes)
}
pub fn index_of<T: Sc>(nodes: &[Node<T>], n: &Node<T>) -> usize {
    nodes.iter().position(|x| x == n).expect("a node of the robot")
}
pub fn indices<T: Sc>(nodes: &[Node<T>], c: &Chain<T>) -> Vec<usize> {
    c.iter().map(|n| index_of(nodes, n)).collect()
}

/// Views of a robot
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum View {
    /// whole subtree below a node
    Tree(usize),
    /// root to end
    End(usize),
    /// (end, root): part of a path
    Part(usize, usize),
    /// the nodes of a bit mask, in index order: nodes between them may be missing
    Pick(u64),
    /// the same from last to first: every node before its parent
    Rev(u64),
}
pub fn views(m: &Model) -> Vec<View> {
    let n = m.nodes.len();
    if n > 40 {
        // too many for all
        return vec![View::Tree(0), View::Tree(1), View::End(n - 1), View::End(n / 2), View::Part(n - 1, m.path(n - 1)[1])];
    }
    let mut v: Vec<View> = (0..n).map(View::Tree).collect();
    v.extend((0..n).map(View::End));
    for e in 0..n {
        for r in m.path(e) {
            v.push(View::Part(e, r));
        }
    }
    v
}
/// Chains with gaps: all nodes of one subtree but some, the first one being above all others
pub fn picks(m: &Model) -> Vec<View> {
    let n = m.nodes.len();
    let mut v: Vec<u64> = vec![];
    if n <= 4 {
        for mask in 1..1u64 << n {
            let first = mask.trailing_zeros() as usize;
            let below = m.subtree(first);
            if (0..n).all(|i| mask >> i & 1 == 0 || below.contains(&i)) {
                v.push(mask);
            }
        }
    } else {
        let all: u64 = (0..n.min(60)).map(|i| 1 << i).sum();
        v.push(all & !2);
        v.push(all & !(1 << (n / 2).min(60)));
        v.push(all & 0x5555555555555555);
        v.push(all & 0x9249249249249249);
        v.push(1 | all & !0xff);
    }
    v.sort_unstable();
    v.dedup();
    // those which are no other view
    let known: Vec<Vec<usize>> = views(m)
        .into_iter()
        .map(|v| {
            let mut x = view_nodes(m, v);
            x.sort_unstable();
            x
        })
        .collect();
    v.into_iter().map(View::Pick).filter(|v| !known.contains(&view_nodes(m, *v))).collect()
}
pub fn all_views(m: &Model) -> Vec<View> {
    let mut v = views(m);
    if m.nodes.len() > 40 {
        v.extend([View::Pick(0x555555555555555), View::Pick(0xfffffffffffffff), View::Pick(!0 >> 4 & !2)]);
        return v;
    }
    v.extend(picks(m));
    v
}
/// Also lists of nodes of separate subtrees, and lists with children before their parents
pub fn lists(m: &Model) -> Vec<View> {
    let n = m.nodes.len();
    let mut v = all_views(m);
    if n > 40 {
        v.extend([View::Rev(0xfffffffffffffff), View::Rev(0x249249249249248)]);
        return v;
    }
    let all: u64 = (0..n.min(60)).map(|i| 1 << i).sum();
    let mut masks: Vec<u64> = if n <= 4 { (1..1u64 << n).collect() } else { vec![all, all & !1, all & !0b101, all & 0x5555555555555555] };
    for i in 0..n.min(60) {
        masks.push(m.path(i).iter().map(|x| 1 << x).sum());
    }
    masks.sort_unstable();
    masks.dedup();
    for x in masks {
        if x.count_ones() > 1 {
            v.push(View::Rev(x));
            if !v.contains(&View::Pick(x)) && !v.iter().any(|w| view_nodes(m, *w) == view_nodes(m, View::Pick(x))) {
                v.push(View::Pick(x));
            }
        }
    }
    v
}
pub fn view<T: Sc>(nodes: &[Node<T>], v: View) -> Chain<T> {
    match v {
        View::Tree(i) => Chain::from_root(nodes[i].clone()),
        View::End(i) => Chain::from_end(&nodes[i]),
        View::Part(e, r) => Chain::from_end_to_root(&nodes[e], &nodes[r]),
        View::Pick(_) | View::Rev(_) => Chain::from_nodes(picked(nodes.len(), v).into_iter().map(|i| nodes[i].clone()).collect()),
    }
}
fn picked(n: usize, v: View) -> Vec<usize> {
    match v {
        View::Pick(mask) => (0..n.min(64)).filter(|i| mask >> i & 1 == 1).collect(),
        View::Rev(mask) => (0..n.min(64)).rev().filter(|i| mask >> i & 1 == 1).collect(),
        _ => unreachable!(),
    }
}
/// Nodes a view contains (for paths in order; for trees as a set)
pub fn view_nodes(m: &Model, v: View) -> Vec<usize> {
    match v {
        View::Tree(i) => m.subtree(i),
        View::End(i) => m.path(i),
        View::Part(e, r) => {
            let p = m.path(e);
            match p.iter().position(|x| *x == r) {
                Some(k) => p[k..].to_vec(),
                None => p,
            }
        }
        View::Pick(_) | View::Rev(_) => picked(m.nodes.len(), v),
    }
}
pub fn serial<T: Sc>(nodes: &[Node<T>], e: usize, r: Option<usize>) -> SerialChain<T> {
    match r {
        Some(r) => SerialChain::from_end_to_root(&nodes[e], &nodes[r]),
        None => SerialChain::from_end(&nodes[e]),
    }
}

/// A family of varied joints: palette `pal` assigns axis/origin/position by index
pub fn palette_node(i: usize, code: u8, pal: usize) -> MNode {
    let ax = AXES[(i * 5 + pal * 3 + 2) % AXES.len()];
    let org = match pal {
        // moderate numbers
        0 => ORGS[[2, 6, 7, 4, 1, 9][i % 6]],
        1 => ORGS[[7, 3, 2, 6, 5, 4][i % 6]],
        _ => ORGS[[0, 1, 0, 3, 5, 2][i % 6]],
    };
    let q = match pal {
        0 => [0.4, -0.9, 1.3, -0.2, 2.2, 0.7][i % 6],
        1 => [-1.1, 0.6, 0.35, 2.9, -0.45, 1.7][i % 6],
        _ => [0.0, 1.0, 0.0, -1.0, 0.5, 0.0][i % 6],
    };
    let qd = match pal {
        0 => [0.7, -0.4, 1.1, 0.3, -2.0, 0.9][i % 6],
        1 => [1.5, 0.2, -0.6, -1.3, 0.8, 0.1][i % 6],
        _ => [0.0, 1.0, 2.0, 0.0, -1.0, 0.5][i % 6],
    };
    let kind = match code {
        0 => Kind::Fixed,
        1 => Kind::Rot(ax),
        _ => Kind::Lin(ax),
    };
    let mv = kind.movable();
    MNode {
        name: format!("j{}", i),
        kind,
        org,
        q: if mv { q } else { 0. },
        qd: if mv { qd } else { 0. },
        limits: None,
        parent: None,
        link: None,
        mimic: None,
    }
}
pub fn tree(shape: &[Option<usize>], kinds: &[u8], pal: usize) -> Model {
    Model {
        nodes: shape
            .iter()
            .enumerate()
            .map(|(i, p)| MNode {
                parent: *p,
                ..palette_node(i, kinds[i], pal)
            })
            .collect(),
    }
}
/// What must not matter to kinematics: limits (wide, violated, touched, empty), resting joints, links,
/// mimic relations that are out of step, equal names, tiny positions and velocities, several turns
pub const DECOS: usize = 9;
pub fn decorate(m: &mut Model, k: usize) {
    let mut last = None;
    for i in 0..m.nodes.len() {
        let n = &mut m.nodes[i];
        let mv = n.kind.movable();
        let up = (n.qd > 0.) ^ (i % 3 == 2);
        match k {
            0 => {}
            1 => n.limits = Some((n.q - 10., n.q + 10.)),
            2 => n.limits = Some(if up { (n.q - 1., n.q - 0.125) } else { (n.q + 0.25, n.q + 1.) }),
            3 => n.limits = Some(if up { (n.q - 1.5, n.q) } else { (n.q, n.q + 1.5) }),
            4 => {
                if i % 2 == 0 {
                    n.qd = 0.;
                }
                if i % 3 == 0 {
                    n.limits = Some((n.q + 0.5, n.q + 0.75));
                }
            }
            5 => {
                n.link = palette_link(i, (i + 1) % 4);
                if mv && i % 2 == 1 {
                    n.mimic = last.map(|d| (d, -0.5 + i as f64, 0.25));
                }
                n.qd = -n.qd;
            }
            6 => {
                n.name = "same".to_string();
                n.limits = Some((n.q, n.q));
                if i % 2 == 1 {
                    n.qd = 0.;
                }
            }
            7 => {
                n.q *= [1e-4, -3e-7, 8e-3][i % 3];
                n.qd *= [1., 1e-3, -1e-5][i % 3];
                n.name = ["", " a", "a ", "a"][i % 4].to_string();
            }
            _ => {
                n.q += [2., -4., 6.][i % 3] * PI;
                n.qd *= 50.;
                // open to one side, or to both
                n.limits = Some([(f64::NEG_INFINITY, n.q + 0.5), (n.q - 0.5, f64::INFINITY), (f64::NEG_INFINITY, f64::INFINITY)][i % 3]);
                n.name = format!("{}_{}", "left_front_lower_leg_link_", i / 2);
            }
        }
        if !mv {
            n.q = 0.;
            n.qd = 0.;
        }
        if mv {
            last = Some(i);
        } else {
            n.limits = None;
        }
    }
}
/// links for a model, chosen by a code per node: 0 none, 1 plain, 2 rotated with two visuals, 3 massless
pub fn palette_link(i: usize, code: usize) -> Option<MLink> {
    // neighbours with links of the same name
    let name = format!("link{}", if i % 3 == 1 { i - 1 } else { i });
    match code {
        0 => None,
        // neither name nor shape
        1 if i % 4 == 3 => Some(MLink {
            name: String::new(),
            mass: 1.0 + i as f64,
            inertial: Org { t: [0.1, -0.2, 0.3], ..Org::ID },
            visuals: vec![],
            collisions: vec![],
        }),
        1 => Some(MLink {
            name,
            mass: 1.0 + i as f64,
            inertial: Org { t: [0.1, -0.2, 0.3], ..Org::ID },
            visuals: vec![],
            collisions: vec![ORGS[2]],
        }),
        2 => Some(MLink {
            name,
            // some are very light
            mass: if i % 3 == 1 { 0.002 } else { 0.5 + 2.0 * i as f64 },
            inertial: ORGS[7],
            visuals: if i % 2 == 0 { vec![ORGS[6], ORGS[4]] } else { vec![ORGS[6], ORGS[4], ORGS[0], ORGS[4], ORGS[7]] },
            collisions: vec![],
        }),
        _ => Some(MLink {
            name,
            mass: 0.,
            inertial: ORGS[6],
            visuals: vec![ORGS[5]],
            collisions: if i % 2 == 0 { vec![ORGS[3], ORGS[7]] } else { vec![ORGS[3], ORGS[7], ORGS[3], ORGS[1]] },
        }),
    }
}
/// a link of many elements
pub fn long_link(i: usize, visuals: usize, collisions: usize) -> MLink {
    MLink {
        name: format!("link{}", i),
        mass: 2.0,
        inertial: ORGS[6],
        visuals: (0..visuals).map(|k| ORGS[(i + k) % ORGS.len()]).collect(),
        collisions: (0..collisions).map(|k| ORGS[(i + 3 * k) % ORGS.len()]).collect(),
    }
}
pub const COUNTS: [usize; 9] = [0, 1, 3, 7, 8, 9, 17, 33, 70];
/// positions rounded to the scalar type, so that the model moves exactly where the joint does
pub fn round<T: Sc>(m: &mut Model) {
    for n in m.nodes.iter_mut() {
        n.q = T::of(n.q).d();
        n.qd = T::of(n.qd).d();
    }
}
