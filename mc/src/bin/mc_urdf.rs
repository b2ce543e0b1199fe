//! C22, C23: a URDF text is loaded into the chain it describes.
use k::joint::JointType;
use k::link::Geometry;
use k::{Chain, Node};
use kmc::ensure;
use kmc::fw::*;
use kmc::model::*;
use kmc::real::*;
use std::fmt::Write as _;

// ---------------------------------------------------------------- the described robot

#[derive(Clone, Copy, Debug)]
struct UPose {
    xyz: Option<V3>,
    rpy: Option<V3>,
}
impl UPose {
    fn pose(p: &Option<UPose>) -> Pose {
        let xyz = p.and_then(|p| p.xyz).unwrap_or([0.; 3]);
        let [r, pi, y] = p.and_then(|p| p.rpy).unwrap_or([0.; 3]);
        let m = mm(
            &rot([0., 0., 1.], y),
            &mm(&rot([0., 1., 0.], pi), &rot([1., 0., 0.], r)),
        );
        Pose { r: m, p: xyz }
    }
}
#[derive(Clone, Debug)]
enum UGeo {
    Box(V3),
    Cylinder(f64, f64),
    Capsule(f64, f64),
    Sphere(f64),
    Mesh(&'static str, Option<V3>),
}
#[derive(Clone, Debug)]
struct UElem {
    name: Option<String>,
    pose: Option<UPose>,
    geo: UGeo,
    /// name, color, texture
    material: Option<(&'static str, Option<[f64; 4]>, Option<&'static str>)>,
}
#[derive(Clone, Debug, Default)]
struct ULink {
    name: String,
    inertial: Option<(Option<UPose>, f64, [f64; 6])>,
    visuals: Vec<UElem>,
    collisions: Vec<UElem>,
    collisions_first: bool,
}
#[derive(Clone, Debug)]
struct UJoint {
    name: String,
    typ: &'static str,
    parent: usize,
    child: usize,
    pose: Option<UPose>,
    axis: Option<V3>,
    limit: Option<(Option<f64>, Option<f64>)>,
    /// joint, multiplier, offset
    mimic: Option<(usize, Option<f64>, Option<f64>)>,
    extras: bool,
}
#[derive(Clone, Debug)]
struct URobot {
    links: Vec<ULink>,
    joints: Vec<UJoint>,
    root_declared: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum El {
    L(usize),
    J(usize),
}

fn nums(x: &[f64]) -> String {
    x.iter()
        .map(|x| format!("{:?}", x))
        .collect::<Vec<_>>()
        .join(" ")
}
fn origin_xml(o: &mut String, p: &Option<UPose>) {
    if let Some(p) = p {
        o.push_str("<origin");
        if let Some(v) = p.rpy {
            let _ = write!(o, " rpy=\"{}\"", nums(&v));
        }
        if let Some(v) = p.xyz {
            let _ = write!(o, " xyz=\"{}\"", nums(&v));
        }
        o.push_str("/>");
    }
}
fn elem_xml(o: &mut String, tag: &str, e: &UElem) {
    let _ = write!(o, "<{}", tag);
    if let Some(n) = &e.name {
        let _ = write!(o, " name=\"{}\"", n);
    }
    o.push('>');
    origin_xml(o, &e.pose);
    o.push_str("<geometry>");
    let _ = match &e.geo {
        UGeo::Box(s) => write!(o, "<box size=\"{}\"/>", nums(s)),
        UGeo::Cylinder(r, l) => write!(o, "<cylinder length=\"{:?}\" radius=\"{:?}\"/>", l, r),
        UGeo::Capsule(r, l) => write!(o, "<capsule radius=\"{:?}\" length=\"{:?}\"/>", r, l),
        UGeo::Sphere(r) => write!(o, "<sphere radius=\"{:?}\"/>", r),
        UGeo::Mesh(f, None) => write!(o, "<mesh filename=\"{}\"/>", f),
        UGeo::Mesh(f, Some(s)) => write!(o, "<mesh scale=\"{}\" filename=\"{}\"/>", nums(s), f),
    };
    o.push_str("</geometry>");
    if let Some((n, c, t)) = &e.material {
        let _ = write!(o, "<material name=\"{}\">", n);
        if let Some(c) = c {
            let _ = write!(o, "<color rgba=\"{}\"/>", nums(c));
        }
        if let Some(t) = t {
            let _ = write!(o, "<texture filename=\"{}\"/>", t);
        }
        o.push_str("</material>");
    }
    let _ = write!(o, "</{}>", tag);
}
fn link_xml(o: &mut String, l: &ULink) {
    let _ = write!(o, "<link name=\"{}\">", l.name);
    let cs = |o: &mut String| {
        for c in &l.collisions {
            elem_xml(o, "collision", c)
        }
    };
    if l.collisions_first {
        cs(o);
    }
    for v in &l.visuals {
        elem_xml(o, "visual", v)
    }
    if !l.collisions_first {
        cs(o);
    }
    if let Some((p, m, i)) = &l.inertial {
        o.push_str("<inertial>");
        origin_xml(o, p);
        let _ = write!(o, "<mass value=\"{:?}\"/><inertia ixx=\"{:?}\" ixy=\"{:?}\" ixz=\"{:?}\" iyy=\"{:?}\" iyz=\"{:?}\" izz=\"{:?}\"/></inertial>", m, i[0], i[1], i[2], i[3], i[4], i[5]);
    }
    o.push_str("</link>\n");
}
fn joint_xml(o: &mut String, r: &URobot, j: &UJoint) {
    let _ = write!(o, "<joint name=\"{}\" type=\"{}\">", j.name, j.typ);
    if let Some((lo, hi)) = j.limit {
        o.push_str("<limit effort=\"10\" velocity=\"2\"");
        if let Some(x) = hi {
            let _ = write!(o, " upper=\"{:?}\"", x);
        }
        if let Some(x) = lo {
            let _ = write!(o, " lower=\"{:?}\"", x);
        }
        o.push_str("/>");
    }
    if let Some(a) = j.axis {
        let _ = write!(o, "<axis xyz=\"{}\"/>", nums(&a));
    }
    let _ = write!(
        o,
        "<child link=\"{}\"/><parent link=\"{}\"/>",
        r.links[j.child].name, r.links[j.parent].name
    );
    origin_xml(o, &j.pose);
    if let Some((d, m, f)) = j.mimic {
        let _ = write!(o, "<mimic joint=\"{}\"", r.joints[d].name);
        if let Some(x) = m {
            let _ = write!(o, " multiplier=\"{:?}\"", x);
        }
        if let Some(x) = f {
            let _ = write!(o, " offset=\"{:?}\"", x);
        }
        o.push_str("/>");
    }
    if j.extras {
        o.push_str("<dynamics damping=\"0.5\" friction=\"0.25\"/><safety_controller soft_lower_limit=\"-0.125\" soft_upper_limit=\"0.125\" k_position=\"1\" k_velocity=\"1\"/>");
    }
    o.push_str("</joint>\n");
}
fn xml(r: &URobot, order: &[El]) -> String {
    let mut o = String::from("<?xml version=\"1.0\"?>\n<robot name=\"r\">\n");
    for e in order {
        match e {
            El::L(0) if !r.root_declared => {}
            El::L(i) => link_xml(&mut o, &r.links[*i]),
            El::J(i) => joint_xml(&mut o, r, &r.joints[*i]),
        }
    }
    o.push_str("</robot>\n");
    o
}
fn plain_order(r: &URobot) -> Vec<El> {
    (0..r.links.len())
        .map(El::L)
        .chain((0..r.joints.len()).map(El::J))
        .collect()
}

// ---------------------------------------------------------------- what the chain must be

fn kind_of(j: &UJoint) -> Kind {
    let a = unit(j.axis.unwrap_or([1., 0., 0.]));
    match j.typ {
        "revolute" | "continuous" => Kind::Rot(a),
        "prismatic" => Kind::Lin(a),
        _ => Kind::Fixed,
    }
}
/// node 0 is the root, node i + 1 joint i; `org` of a node is kept separately
struct Want {
    m: Model,
    local: Vec<Pose>,
}
fn want(r: &URobot) -> Want {
    let mut nodes = vec![MNode {
        name: k::urdf::ROOT_JOINT_NAME.to_string(),
        kind: Kind::Fixed,
        org: Org::ID,
        q: 0.,
        qd: 0.,
        limits: None,
        parent: None,
        link: None,
        mimic: None,
    }];
    let mut local = vec![Pose::ID];
    for j in &r.joints {
        let parent = r.joints.iter().position(|x| x.child == j.parent).map_or(0, |i| i + 1);
        let limits = j
            .limit
            .map(|(a, b)| (a.unwrap_or(0.), b.unwrap_or(0.)))
            .filter(|(a, b)| a < b);
        nodes.push(MNode {
            name: j.name.clone(),
            kind: kind_of(j),
            org: Org::ID,
            q: 0.,
            qd: 0.,
            limits,
            parent: Some(parent),
            link: None,
            mimic: j
                .mimic
                .map(|(d, m, o)| (d + 1, m.unwrap_or(1.), o.unwrap_or(0.))),
        });
        local.push(UPose::pose(&j.pose));
    }
    Want { m: Model { nodes }, local }
}
fn world(w: &Want, i: usize) -> Pose {
    w.m.path(i)
        .iter()
        .fold(Pose::ID, |t, j| t.mul(&w.local[*j]).mul(&w.m.local(*j)))
}
fn close<T: Sc>(a: T, b: f64) -> bool {
    // numbers are taken over as they are
    (a.d() - T::of(b).d()).abs() <= 8. * eps::<T>() * b.abs()
}
fn eps<T: Sc>() -> f64 {
    if T::TOL < 1e-6 {
        f64::EPSILON
    } else {
        f32::EPSILON as f64
    }
}
/// the place to the last digits, the rotation to nearly that
fn check_origin<T: Sc>(what: &str, got: &k::Isometry3<T>, p: &Option<UPose>) -> Result<(), String> {
    let want = UPose::pose(p);
    // an angle can be known to its last digit only
    let size: f64 = p.and_then(|p| p.rpy).map_or(0., |v| v.iter().map(|x| x.abs()).sum());
    let g = pose_of(got);
    for i in 0..3 {
        ensure!(close(got.translation.vector[i], want.p[i]), "{} is at {:?} instead of {:?}", what, g.p, want.p);
        for j in 0..3 {
            ensure!(
                near((g.r[i][j] - want.r[i][j]).abs(), eps::<T>() * (64. + 2. * size)),
                "{} is turned by {:?} instead of {:?}",
                what,
                g.r,
                want.r
            );
        }
    }
    Ok(())
}
fn check_geo<T: Sc>(what: &str, got: &Geometry<T>, want: &UGeo) -> Result<(), String> {
    let ok = match (got, want) {
        (Geometry::Box { depth, width, height }, UGeo::Box(s)) => {
            close(*depth, s[0]) && close(*width, s[1]) && close(*height, s[2])
        }
        (Geometry::Cylinder { radius, length }, UGeo::Cylinder(r, l)) => close(*radius, *r) && close(*length, *l),
        (Geometry::Capsule { radius, length }, UGeo::Capsule(r, l)) => close(*radius, *r) && close(*length, *l),
        (Geometry::Sphere { radius }, UGeo::Sphere(r)) => close(*radius, *r),
        (Geometry::Mesh { filename, scale }, UGeo::Mesh(f, s)) => {
            let s = s.unwrap_or([1.; 3]);
            filename == f && (0..3).all(|i| close(scale[i], s[i]))
        }
        _ => false,
    };
    ensure!(ok, "{}: geometry is {:?} instead of {:?}", what, got, want);
    Ok(())
}
fn check_link<T: Sc>(node: &Node<T>, want: &ULink) -> Result<(), String> {
    let guard = node.link();
    let l = match guard.as_ref() {
        Some(l) => l,
        None => return Err(format!("link {} is not on its node", want.name)),
    };
    ensure!(l.name == want.name, "the node carries link {} instead of {}", l.name, want.name);
    let n = &want.name;
    let (p, mass, i) = want.inertial.unwrap_or((None, 0., [0.; 6]));
    check_origin(&format!("inertial origin of {}", n), l.inertial.origin(), &p)?;
    ensure!(close(l.inertial.mass, mass), "{}: mass {:?} instead of {}", n, l.inertial.mass, mass);
    let full = [[i[0], i[1], i[2]], [i[1], i[3], i[4]], [i[2], i[4], i[5]]];
    for a in 0..3 {
        for b in 0..3 {
            let g = l.inertial.inertia[(a, b)];
            ensure!(close(g, full[a][b]), "{}: inertia ({},{}) is {:?} instead of {}", n, a, b, g, full[a][b]);
        }
    }
    ensure!(l.visuals.len() == want.visuals.len(), "{}: {} visuals instead of {}", n, l.visuals.len(), want.visuals.len());
    for (k, (g, w)) in l.visuals.iter().zip(&want.visuals).enumerate() {
        let what = format!("visual {} of {}", k, n);
        ensure!(g.name == w.name.clone().unwrap_or_default(), "{}: name {:?}", what, g.name);
        check_origin(&what, g.origin(), &w.pose)?;
        check_geo(&what, &g.geometry, &w.geo)?;
        let m = &g.material;
        let (mn, c, t) = w.material.unwrap_or(("", None, None));
        ensure!(m.name == mn, "{}: material {:?} instead of {:?}", what, m.name, mn);
        let c = c.unwrap_or([0.; 4]);
        ensure!(
            close(m.color.r, c[0]) && close(m.color.g, c[1]) && close(m.color.b, c[2]) && close(m.color.a, c[3]),
            "{}: color {:?} instead of {:?}", what, m.color, c
        );
        ensure!(m.texture.filename == t.unwrap_or(""), "{}: texture {:?}", what, m.texture.filename);
    }
    ensure!(l.collisions.len() == want.collisions.len(), "{}: {} collisions instead of {}", n, l.collisions.len(), want.collisions.len());
    for (k, (g, w)) in l.collisions.iter().zip(&want.collisions).enumerate() {
        let what = format!("collision {} of {}", k, n);
        ensure!(g.name == w.name.clone().unwrap_or_default(), "{}: name {:?}", what, g.name);
        check_origin(&what, g.origin(), &w.pose)?;
        check_geo(&what, &g.geometry, &w.geo)?;
    }
    Ok(())
}

/// The nodes of the chain by the numbering of `Want`
fn by_number<T: Sc>(chain: &Chain<T>, w: &Want) -> Result<Vec<Node<T>>, String> {
    let m = &w.m;
    let all: Vec<Node<T>> = chain.iter().cloned().collect();
    ensure!(all.len() == m.nodes.len(), "the chain has {} nodes instead of {}", all.len(), m.nodes.len());
    let mut nodes: Vec<Option<Node<T>>> = vec![None; all.len()];
    for (k, n) in all.iter().enumerate() {
        if n.parent().is_none() {
            ensure!(k == 0 && nodes[0].is_none(), "the root is not the first node, or not the only root");
            ensure!(n.joint().name == m.nodes[0].name, "the root node is named {}", n.joint().name);
            nodes[0] = Some(n.clone());
            continue;
        }
        let name = n.joint().name.clone();
        let i = match (1..m.nodes.len()).find(|i| m.nodes[*i].name == name) {
            Some(i) => i,
            None => return Err(format!("the robot has no joint {}", name)),
        };
        ensure!(nodes[i].is_none(), "joint {} is in the chain twice", name);
        nodes[i] = Some(n.clone());
    }
    ensure!(nodes.iter().all(|x| x.is_some()), "a joint is missing in the chain");
    Ok(nodes.into_iter().map(|x| x.unwrap()).collect())
}

fn check_chain<T: Sc>(chain: &Chain<T>, r: &URobot, ctx: &mut Ctx) -> Result<(), String> {
    let mut w = want(r);
    let nodes = check_static(chain, r, &w, ctx)?;
    check_motion(chain, &nodes, &mut w, ctx)
}
/// all that can be read
fn check_static<T: Sc>(chain: &Chain<T>, r: &URobot, w: &Want, ctx: &mut Ctx) -> Result<Vec<Node<T>>, String> {
    let nodes = by_number(chain, w)?;
    for i in 0..nodes.len() {
        let (n, mn) = (&nodes[i], &w.m.nodes[i]);
        ctx.state();
        let parent = n.parent().map(|p| index_of(&nodes, &p));
        ensure!(parent == mn.parent, "{} hangs under {:?} instead of {:?}", mn.name, parent.map(|p| &w.m.nodes[p].name), mn.parent.map(|p| &w.m.nodes[p].name));
        let mut ch: Vec<usize> = n.children().iter().map(|c| index_of(&nodes, c)).collect();
        ch.sort();
        ensure!(ch == w.m.children(i), "{} has children {:?}", mn.name, ch);
        check_origin(&format!("origin of {}", mn.name), &n.origin(), if i == 0 { &None } else { &r.joints[i - 1].pose })?;
        let j = n.joint();
        let axis_ok = |a: &k::Vector3<T>, b: &V3| {
            let e = norm(sub([a[0].d(), a[1].d(), a[2].d()], *b));
            near(e, 16. * eps::<T>())
        };
        let ok = match (&j.joint_type, &mn.kind) {
            (JointType::Fixed, Kind::Fixed) => true,
            (JointType::Rotational { axis }, Kind::Rot(b)) => axis_ok(axis, b),
            (JointType::Linear { axis }, Kind::Lin(b)) => axis_ok(axis, b),
            _ => false,
        };
        ensure!(ok, "{} has type {:?} instead of {:?}", mn.name, j.joint_type, mn.kind);
        if mn.kind.movable() {
            let lim = j.limits.map(|l| (l.min, l.max));
            let ok = match (lim, mn.limits) {
                (None, None) => true,
                (Some(a), Some(b)) => a.0 == T::of(b.0) && a.1 == T::of(b.1),
                _ => false,
            };
            ensure!(ok, "{} has limits {:?} instead of {:?}", mn.name, lim, mn.limits);
        }
        drop(j);
        let mp = n.mimic_parent().map(|p| index_of(&nodes, &p));
        ensure!(mp == mn.mimic.map(|x| x.0), "{} mimics {:?} instead of {:?}", mn.name, mp, mn.mimic);
        // its link
        let link = if i == 0 { 0 } else { r.joints[i - 1].child };
        if i == 0 && !r.root_declared {
            ensure!(n.link().is_none(), "the root node carries a link that the robot does not have");
        } else {
            check_link(n, &r.links[link])?;
        }
    }
    let dof = w.m.nodes.iter().filter(|n| n.kind.movable()).count();
    ensure!(chain.dof() == dof, "dof is {} instead of {}", chain.dof(), dof);
    Ok(nodes)
}
fn check_motion<T: Sc>(chain: &Chain<T>, nodes: &[Node<T>], w: &mut Want, ctx: &mut Ctx) -> Result<(), String> {
    // the motion: every driver is commanded, then all poses are compared
    for q in [0.0, 0.3] {
        for i in 0..nodes.len() {
            if w.m.nodes[i].kind.movable() && w.m.nodes[i].mimic.is_none() {
                let q = q + 0.1 * i as f64;
                let q = T::of(q).d();
                ctx.step();
                let r = nodes[i].set_joint_position(T::of(q));
                match w.m.checked(i, q) {
                    Some(set) => {
                        ensure!(r.is_ok(), "{} refuses {}: {:?}", w.m.nodes[i].name, q, r);
                        for (n, x) in set {
                            w.m.nodes[n].q = x;
                        }
                    }
                    None => ensure!(r.is_err(), "{} accepts {} outside a limit", w.m.nodes[i].name, q),
                }
            }
        }
        for i in 0..nodes.len() {
            let p = nodes[i].joint_position();
            if w.m.nodes[i].kind.movable() {
                let p = p.map(|x| x.d()).unwrap_or(f64::NAN);
                ensure!(near((p - w.m.nodes[i].q).abs(), T::TOL * 10.), "{} is at {} instead of {}", w.m.nodes[i].name, p, w.m.nodes[i].q);
            } else {
                ensure!(p.is_none(), "{} has a position", w.m.nodes[i].name);
            }
        }
        chain.update_transforms();
        let ext = 1. + w.local.iter().map(|p| norm(p.p)).sum::<f64>();
        for i in 0..nodes.len() {
            let t = nodes[i].world_transform().ok_or("no pose")?;
            check_pose(&format!("pose of {}", w.m.nodes[i].name), &t, &world(w, i), T::TOL * 10. * ext)?;
        }
    }
    Ok(())
}

fn check_maps(robot: &urdf_rs::Robot, r: &URobot) -> Result<(), String> {
    let lj = k::urdf::link_to_joint_map(robot);
    let jl = k::urdf::joint_to_link_map(robot);
    // one entry per declared link
    let mut want: Vec<(String, String)> = r
        .joints
        .iter()
        .map(|j| (r.links[j.child].name.clone(), j.name.clone()))
        .collect();
    if r.root_declared {
        want.push((r.links[0].name.clone(), k::urdf::ROOT_JOINT_NAME.to_string()));
    }
    want.sort();
    let mut got: Vec<_> = lj.clone().into_iter().collect();
    got.sort();
    ensure!(got == want, "the link to joint map is {:?} instead of {:?}", got, want);
    let mut inv: Vec<_> = jl.into_iter().map(|(j, l)| (l, j)).collect();
    inv.sort();
    ensure!(inv == want, "the joint to link map, inverted, is {:?} instead of {:?}", inv, want);
    // the chain agrees
    let chain = Chain::<f64>::from(robot);
    for (l, j) in &want {
        match chain.find(j) {
            None => return Err(format!("joint {} is not in the chain", j)),
            Some(n) => {
                let g = n.link();
                let name = g.as_ref().map(|x| x.name.clone());
                ensure!(name.as_ref() == Some(l), "node {} carries {:?} instead of {}", j, name, l);
            }
        }
    }
    let carried = chain.iter().filter(|n| n.link().is_some()).count();
    ensure!(carried == want.len(), "{} nodes carry a link, {} links", carried, want.len());
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum How {
    Ref,
    Value,
    File,
}
fn check_load(r: &URobot, order: &[El], c23: bool, how: How, single: bool, ctx: &mut Ctx) -> Result<(), String> {
    let text = xml(r, order);
    ctx.note(|| text.clone());
    if how == How::File {
        let dir = std::env::temp_dir().join(format!("kmc-urdf-{}-{:?}", std::process::id(), std::thread::current().id()));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        const FILES: [&str; 8] = [
            "r.urdf",
            "my robot.urdf",
            "\u{30ed}\u{30dc}.urdf",
            "r.v2.urdf",
            ".r.urdf",
            "-r.urdf",
            "xacro.urdf",
            "{}%20&'.urdf",
        ];
        let path = dir.join(FILES[text.len() % FILES.len()]);
        std::fs::write(&path, &text).map_err(|e| e.to_string())?;
        let c = if single {
            Chain::<f32>::from_urdf_file(&path).map(|c| check_chain(&c, r, ctx))
        } else {
            Chain::<f64>::from_urdf_file(&path).map(|c| check_chain(&c, r, ctx))
        };
        let _ = std::fs::remove_file(&path);
        let _ = std::fs::remove_dir(&dir);
        return match c {
            Err(e) => Err(format!("the file is not loaded: {}", e)),
            Ok(x) => x,
        };
    }
    let robot = urdf_rs::read_from_string(&text).map_err(|e| format!("harness: bad text: {}", e))?;
    if c23 {
        ctx.state();
        ctx.step();
        ctx.step();
        return check_maps(&robot, r);
    }
    match (how, single) {
        (How::Ref, true) => check_chain(&Chain::<f32>::from(&robot), r, ctx),
        (How::Ref, false) => check_chain(&Chain::<f64>::from(&robot), r, ctx),
        (_, true) => check_chain(&Chain::<f32>::from(robot), r, ctx),
        (_, false) => check_chain(&Chain::<f64>::from(robot), r, ctx),
    }
}

// ---------------------------------------------------------------- generators

const RPY: [Option<V3>; 9] = [
    None,
    Some([0.7, 0., 0.]),
    Some([0., -0.6, 0.]),
    Some([0., 0., 1.1]),
    Some([0.3, -0.7, 1.1]),
    Some([-2.5, 0.4, 2.9]),
    Some([3.5, 2.0, -4.0]),
    Some([0.2, std::f64::consts::FRAC_PI_2, -0.5]),
    Some([0.2, -std::f64::consts::FRAC_PI_2, 0.9]),
];
const XYZ: [Option<V3>; 3] = [None, Some([0.1, -0.2, 0.3]), Some([-5., 0., 2.5])];
const AXIS: [Option<V3>; 8] = [
    None,
    Some([0., 0., 1.]),
    Some([0., -2., 0.]),
    Some([0.6, 0., 0.8]),
    Some([1., 1., 1.]),
    Some([-1., 0., 0.]),
    Some([0.3, -0.5, 2.]),
    Some([0., 0., -0.25]),
];
const TYPES: [&str; 7] = ["revolute", "continuous", "prismatic", "fixed", "floating", "planar", "spherical"];
const LIMITS: [Option<(Option<f64>, Option<f64>)>; 9] = [
    None,
    Some((Some(-1.), Some(1.))),
    Some((Some(0.5), Some(2.))),
    Some((Some(-2.), Some(-0.25))),
    Some((Some(0.7), Some(0.7))),
    Some((None, Some(1.25))),
    Some((Some(-1.75), None)),
    Some((None, None)),
    Some((Some(-1e-3), Some(1e-3))),
];

fn plain_link(i: usize, name: String) -> ULink {
    ULink {
        name,
        inertial: match i % 3 {
            0 => None,
            x => Some((
                Some(UPose { xyz: XYZ[x % 3], rpy: RPY[4 + x] }),
                1.5 + i as f64,
                [1., 0.1, 0.2, 2., 0.3, 3. + i as f64],
            )),
        },
        visuals: (0..i % 2)
            .map(|_| UElem { name: None, pose: None, geo: UGeo::Sphere(0.5 + i as f64), material: None })
            .collect(),
        ..Default::default()
    }
}
/// names of links and joints: joint i - 1 moves link i
fn names(l: usize, style: usize) -> (Vec<String>, Vec<String>) {
    match style {
        0 => (
            (0..l).map(|i| format!("l{}", i)).collect(),
            (1..l).map(|i| format!("j{}", i)).collect(),
        ),
        // the same words for links and joints, shifted
        1 => (
            (0..l).map(|i| format!("n{}", i)).collect(),
            (1..l).map(|i| format!("n{}", (i + 1) % l)).collect(),
        ),
        // a joint named as the link it moves; the root link named as the root node
        2 => (
            (0..l).map(|i| if i == 0 { "root".into() } else { format!("a{}", i) }).collect(),
            (1..l).map(|i| format!("a{}", i)).collect(),
        ),
        // the last link is named as the root node, names are prefixes of each other
        _ => (
            (0..l).map(|i| if i + 1 == l { "root".into() } else { format!("x{}", "y".repeat(i)) }).collect(),
            (1..l).map(|i| format!("x{}", "y".repeat(l - i))).collect(),
        ),
    }
}
/// `shape[i]`: the parent link of link i + 1
fn structure(shape: &[usize], declared: bool, style: usize, mimic: usize) -> URobot {
    let l = shape.len() + 1;
    let (ln, jn) = names(l, style);
    let joints = (0..l - 1)
        .map(|i| UJoint {
            name: jn[i].clone(),
            typ: if mimic == 0 { TYPES[[0, 2, 3, 1, 4, 5, 6][(i + 3 * style) % 7]] } else { TYPES[[0, 2, 1][i % 3]] },
            parent: shape[i],
            child: i + 1,
            pose: Some(UPose { xyz: XYZ[(i + 1) % 3], rpy: RPY[(i * 3 + 4) % 9] }),
            axis: AXIS[(i * 3 + 1) % 8],
            limit: LIMITS[[1, 0, 5][i % 3]],
            mimic: match mimic {
                0 => None,
                // chains of followers in either direction
                1 if i > 0 => Some((i - 1, Some(if l > 8 { -0.875 } else { -0.5 - i as f64 }), Some(0.25))),
                2 if i + 2 < l => Some((i + 1, Some(0.75), None)),
                _ => None,
            },
            extras: i % 2 == 1,
        })
        .collect();
    URobot {
        links: (0..l).map(|i| plain_link(i, ln[i].clone())).collect(),
        joints,
        root_declared: declared,
    }
}
fn fact(n: usize) -> u64 {
    (1..=n as u64).product()
}
fn permutation(n: usize, mut code: u64) -> Vec<usize> {
    let mut rest: Vec<usize> = (0..n).collect();
    let mut v = vec![];
    for i in (1..=n).rev() {
        v.push(rest.remove((code % i as u64) as usize));
        code /= i as u64;
    }
    v
}
fn shapes(l: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    for i in 1..l {
        v = v
            .into_iter()
            .flat_map(|s| {
                (0..i).map(move |p| {
                    let mut s = s.clone();
                    s.push(p);
                    s
                })
            })
            .collect();
    }
    v
}
fn pose_code(x: usize, r: usize) -> Option<UPose> {
    match (XYZ[x], RPY[r]) {
        (None, None) => None,
        (xyz, rpy) => Some(UPose { xyz, rpy }),
    }
}
fn geo_code(c: usize) -> UGeo {
    match c {
        0 => UGeo::Box([0.1, 0.25, 0.5]),
        1 => UGeo::Cylinder(0.3, 1.5),
        2 => UGeo::Capsule(0.2, 0.9),
        3 => UGeo::Sphere(0.75),
        4 => UGeo::Mesh("package://a/b c.stl", None),
        _ => UGeo::Mesh("m.dae", Some([-1., -2., -0.5])),
    }
}
fn material_code(c: usize) -> Option<(&'static str, Option<[f64; 4]>, Option<&'static str>)> {
    match c {
        0 => None,
        1 => Some(("red", Some([0.75, 0.125, 0.25, 0.5]), None)),
        2 => Some(("tex", None, Some("t.png"))),
        _ => Some(("both", Some([0.1, 0.2, 0.3, 0.4]), Some("u.png"))),
    }
}

const NUMBERS: [f64; 26] = [
    0.005, -0.0004, 1e-9, 250., -0.999999, 1e6, -3.5, 1e-3, 0.0, //
    1e9, -1e-6, 1e-12, 0.05, 0.009, 0.99, 1.000001, -1., 2., 9.99, 12.5, -100., 999., 1001., -12345.678, 6.283185307179586, 3.141592653589793,
];
const FIELDS: usize = 64;
/// the link, joint and elements that get the numbers
fn set_number(r: &mut URobot, f: usize, x: f64) {
    let pose = |p: &mut Option<UPose>, f: usize, x: f64| {
        let p = p.get_or_insert(UPose { xyz: None, rpy: None });
        if f < 3 {
            p.xyz.get_or_insert([0.25, -0.5, 0.75])[f] = x;
        } else {
            p.rpy.get_or_insert([0.1, 0.2, -0.3])[f - 3] = x;
        }
    };
    fn geo(g: &mut UGeo, f: usize, x: f64) {
        let pos = x.abs();
        match f {
            0..=2 => {
                *g = UGeo::Box([0.1, 0.25, 0.5]);
                if let UGeo::Box(s) = g {
                    s[f] = pos
                }
            }
            3 => *g = UGeo::Cylinder(pos, 1.5),
            4 => *g = UGeo::Cylinder(0.5, pos),
            5 => *g = UGeo::Capsule(pos, 1.5),
            6 => *g = UGeo::Capsule(0.5, pos),
            7 => *g = UGeo::Sphere(pos),
            _ => {
                let mut s = [1., 2., -0.5];
                s[f - 8] = x;
                *g = UGeo::Mesh("m.dae", Some(s));
            }
        }
    }
    let elem = || UElem { name: None, pose: None, geo: UGeo::Sphere(0.5), material: None };
    match f {
        0..=5 => pose(&mut r.joints[0].pose, f, x),
        6..=8 => {
            let mut a = r.joints[0].axis.filter(|_| r.joints[0].extras).unwrap_or([0.; 3]);
            a[f - 6] = if x == 0. { 1. } else { x };
            r.joints[0].axis = Some(a);
            r.joints[0].extras = true; // an axis with two numbers
        }
        9 => r.joints[0].limit = Some((Some(x), r.joints[0].limit.filter(|_| !r.joints[1].extras).map_or(Some(2e9), |l| l.1))),
        10 => {
            r.joints[0].limit = Some((r.joints[0].limit.map_or(Some(-2e9), |l| l.0), Some(x)));
        }
        11 => r.joints[1].mimic = Some((0, Some(x), r.joints[1].mimic.map_or(Some(0.25), |m| m.2))),
        12 => r.joints[1].mimic = Some((0, r.joints[1].mimic.map_or(Some(0.75), |m| m.1), Some(x))),
        13..=25 => {
            let i = r.links[1].inertial.get_or_insert((None, 1.5, [1., 0.1, 0.2, 2., 0.3, 3.]));
            match f {
                13 => i.1 = x.abs(),
                14..=19 => i.2[f - 14] = if matches!(f, 14 | 17 | 19) { x.abs() } else { x },
                _ => pose(&mut i.0, f - 20, x),
            }
        }
        26..=46 => {
            if r.links[1].visuals.is_empty() {
                r.links[1].visuals.push(elem());
            }
            let e = &mut r.links[1].visuals[0];
            match f {
                26..=31 => pose(&mut e.pose, f - 26, x),
                32..=42 => geo(&mut e.geo, f - 32, x),
                _ => {
                    let mut c = e.material.and_then(|m| m.1).unwrap_or([0.25, 0.5, 0.75, 1.]);
                    c[f - 43] = x.abs().min(1.);
                    e.material = Some(("m", Some(c), None));
                }
            }
        }
        _ => {
            if r.links[1].collisions.is_empty() {
                r.links[1].collisions.push(elem());
            }
            let e = &mut r.links[1].collisions[0];
            match f {
                47..=52 => pose(&mut e.pose, f - 47, x),
                _ => geo(&mut e.geo, f - 53, x),
            }
        }
    }
}
fn check_numbers<T: Sc>(r: &URobot, ctx: &mut Ctx) -> Result<(), String> {
    if r.joints.iter().any(|j| j.limit.map_or(false, |(a, b)| a.unwrap_or(0.) > b.unwrap_or(0.))) {
        ctx.count("not applicable: lower limit above the upper one");
        return Ok(());
    }
    let text = xml(r, &plain_order(r));
    ctx.note(|| text.clone());
    let robot = urdf_rs::read_from_string(&text).map_err(|e| format!("harness: bad text: {}", e))?;
    let chain = Chain::<T>::from(&robot);
    let w = want(r);
    let nodes = check_static(&chain, r, &w, ctx)?;
    // the numbers of the follower show in its motion
    if let (Some((d, m, o)), None) = (w.m.nodes[2].mimic, w.m.nodes[1].limits) {
        for q in [0., 1., -0.5, 1000., 1e-3] {
            let q = T::of(q).d();
            ctx.step();
            if nodes[d].set_joint_position(T::of(q)).is_err() {
                continue;
            }
            let got = nodes[2].joint_position().map_or(f64::NAN, |x| x.d());
            let (a, b) = (T::of(m).d() * q, T::of(o).d());
            ensure!(
                near((got - a - b).abs(), 8. * eps::<T>() * (a.abs() + b.abs())),
                "the follower is at {} instead of {} * {} + {}",
                got,
                m,
                q,
                o
            );
        }
    }
    Ok(())
}

fn spaces(t: Tier, c23: bool) -> Vec<Space> {
    let thorough = t == Tier::Thorough;
    let mut s = vec![];
    // every order of all elements of the file
    for l in 1..=4usize {
        let sh = shapes(l);
        let n = 2 * l - 1;
        let styles = if l == 4 && !thorough { 1 } else { 4 };
        s.push(space(
            &format!("elements/links={}", l),
            sh.len() as u64 * fact(n) * 2 * styles as u64 * 3 * 2,
            "every tree of links, every order of all link and joint elements in the text, root link declared or not, 4 naming styles, no mimic or chains of followers in either direction, f32 and f64",
            move |i, ctx| {
                let mut d = Dec(i);
                let single = d.take(2) == 1;
                let declared = d.take(2) == 0;
                let mimic = d.take(3);
                let style = d.take(styles);
                let shape = d.pick(&sh).clone();
                let style = if styles == 1 { (d.0 % 4) as usize } else { style };
                let r = structure(&shape, declared, style, mimic);
                let all = plain_order(&r);
                let order: Vec<El> = permutation(n, d.0).into_iter().map(|x| all[x]).collect();
                let how = if i % 2 == 0 { How::Ref } else { How::Value };
                check_load(&r, &order, c23, how, single, ctx)
            },
        ));
    }
    for l in 5..=(if thorough { 6 } else { 5usize }) {
        let sh = shapes(l);
        s.push(space(
            &format!("orders/links={}", l),
            sh.len() as u64 * fact(l) * fact(l - 1) * 3,
            "every tree of links, every order of the links and every order of the joints, with and without chains of followers",
            move |i, ctx| {
                let mut d = Dec(i);
                let mimic = d.take(3);
                let shape = d.pick(&sh).clone();
                let jp = permutation(l - 1, d.take(fact(l - 1) as usize) as u64);
                let lp = permutation(l, d.0);
                let r = structure(&shape, i % 7 != 0, (i % 4) as usize, mimic);
                let order: Vec<El> = lp.into_iter().map(El::L).chain(jp.into_iter().map(El::J)).collect();
                check_load(&r, &order, c23, How::Ref, false, ctx)
            },
        ));
    }
    // large robots
    s.push(space(
        "large",
        prod(&[5, 4, 6, 4, 3, 2, 2]),
        "chains, stars, binary trees and combs of 9 to 130 links, some with many visuals and collisions; 6 orders of the elements; naming styles, followers, root declared or not, f32 and f64",
        move |i, ctx| {
            let mut d = Dec(i);
            let l = [9usize, 18, 34, 70, 130][d.take(5)];
            let shape = d.take(4);
            let order = d.take(6);
            let style = d.take(4);
            let mimic = d.take(3);
            let declared = d.take(2) == 0;
            let single = d.take(2) == 1;
            let sh: Vec<usize> = (1..l).map(|i| [i - 1, 0, (i - 1) / 2, i - 1 - (i + 1) % 2][shape]).collect();
            let mut r = structure(&sh, declared, style, mimic);
            for (k, x) in r.links.iter_mut().enumerate() {
                if k % 8 == 5 {
                    let e = |j: usize| UElem {
                        name: if j % 3 == 0 { None } else { Some(format!("e{}", j % 5)) },
                        pose: pose_code(j % 3, j % 9),
                        geo: geo_code(j % 6),
                        material: None,
                    };
                    x.visuals = (0..k % 40).map(e).collect();
                    x.collisions = (0..(k + 7) % 40).map(e).collect();
                }
            }
            let mut all = plain_order(&r);
            let n = all.len();
            match order {
                0 => {}
                1 => all.reverse(),
                // joints before links, links from the last one
                2 => all = (0..l - 1).map(El::J).chain((0..l).rev().map(El::L)).collect(),
                k => {
                    let step = [0, 0, 0, 2, 7, 101][k];
                    let mut step = step;
                    while (2..=step).any(|x| n % x == 0 && step % x == 0) {
                        step += 1;
                    }
                    all = (0..n).map(|x| all[(x * step + 3) % n]).collect();
                }
            }
            check_load(&r, &all, c23, if i % 2 == 0 { How::Ref } else { How::Value }, single, ctx)
        },
    ));
    // names
    const ODD: [&str; 13] = [
        "j1",
        "J1",
        "j1_",
        "_",
        "1",
        "left arm/joint 1",
        "/ns/arm.joint-1",
        "\u{8098}\u{95a2}\u{7bc0}",
        "package://k/meshes/a b.STL",
        "{}",
        "file:///tmp/\u{e9}.dae",
        "a_name_of_many_words_that_says_which_joint_of_which_finger_of_which_hand_of_which_arm_of_which_robot_this_is",
        "a_name_of_many_words_that_says_which_joint_of_which_finger_of_which_hand_of_which_arm_of_which_robot_this_was",
    ];
    s.push(space(
        "names",
        prod(&[13, 13, 2, 2, 3, 2]),
        "links, joints, elements, meshes, materials and textures with names of 13 kinds: equal but for case or the last letter, digits, blanks, slashes, other alphabets, more than a hundred letters; f32 and f64",
        move |i, ctx| {
            let mut d = Dec(i);
            let (a, b) = (d.take(13), d.take(13));
            let single = d.take(2) == 1;
            let chain = d.take(2) == 1;
            let mimic = d.take(3);
            let back = d.take(2) == 1;
            let mut r = structure(if chain { &[0, 1] } else { &[0, 0] }, true, 0, mimic);
            for k in 0..2 {
                r.joints[k].name = ODD[(a + k) % 13].to_string();
            }
            for k in 0..3 {
                r.links[k].name = ODD[(b + k) % 13].to_string();
                let e = |j: usize, n: usize| UElem {
                    name: Some(ODD[j % 13].to_string()),
                    pose: None,
                    geo: UGeo::Mesh(ODD[(j + n) % 13], None),
                    material: Some((ODD[(j + 2 * n) % 13], None, Some(ODD[(j + 3 * n) % 13]))),
                };
                r.links[k].visuals = vec![e(a, b + k), e(b, a + k)];
                r.links[k].collisions = vec![UElem { material: None, ..e(b, a + k) }];
            }
            let mut order = plain_order(&r);
            if back {
                order.reverse();
            }
            check_load(&r, &order, c23, if i % 2 == 0 { How::Ref } else { How::Value }, single, ctx)
        },
    ));
    if c23 {
        return s;
    }
    // one joint in detail
    s.push(space(
        "joint",
        prod(&[2, 2, TYPES.len(), AXIS.len(), RPY.len(), XYZ.len(), LIMITS.len()]),
        "one joint at the root or below another one: every type, axis (also default and not normalized), rpy (also beyond pi and at the singularity), xyz and limit setting, f32 and f64",
        |i, ctx| {
            let mut d = Dec(i);
            let single = d.take(2) == 1;
            let below = d.take(2) == 1;
            let mut r = structure(if below { &[0, 1, 2] } else { &[0, 1, 0] }, true, 0, 0);
            let j = &mut r.joints[if below { 1 } else { 0 }];
            j.typ = *d.pick(&TYPES);
            j.axis = *d.pick(&AXIS);
            let rpy = d.take(RPY.len());
            j.pose = pose_code(d.take(XYZ.len()), rpy);
            j.limit = *d.pick(&LIMITS);
            let order = plain_order(&r);
            check_load(&r, &order, false, How::Ref, single, ctx)
        },
    ));
    // mimics: every acyclic assignment of drivers to three joints
    let assigns: Vec<[Option<usize>; 3]> = {
        let mut v = vec![];
        for c in 0..64usize {
            let a: Vec<Option<usize>> = (0..3).map(|i| [None, Some(0), Some(1), Some(2)][(c >> (2 * i)) & 3]).collect();
            let acyclic = (0..3).all(|i| {
                let mut x = i;
                for _ in 0..4 {
                    match a[x] {
                        None => return true,
                        Some(y) => x = y,
                    }
                }
                false
            });
            if acyclic {
                v.push([a[0], a[1], a[2]]);
            }
        }
        v
    };
    s.push(space(
        "mimic",
        assigns.len() as u64 * prod(&[6, 6, 6, 6, 6, 2, 3]),
        "every acyclic assignment of drivers among three joints, multiplier (also zero) and offset present or not, every tree of the joints, every order of the joint elements, limits on followers or not",
        move |i, ctx| {
            let mut d = Dec(i);
            let a = *d.pick(&assigns);
            let shape = d.pick(&shapes(4)).clone();
            let jp = permutation(3, d.take(6) as u64);
            let coef = [d.take(6), d.take(6), d.take(6)];
            let limited = d.take(2) == 1;
            let types = d.take(3);
            let mut r = structure(&shape, true, (i % 4) as usize, 0);
            for k in 0..3 {
                let j = &mut r.joints[k];
                j.typ = [["revolute", "prismatic", "continuous"], ["prismatic", "revolute", "revolute"], ["revolute", "revolute", "prismatic"]][types][k];
                j.limit = if limited { Some((Some(-0.55), Some(0.35 + 0.2 * k as f64))) } else { None };
                j.mimic = a[k].map(|dr| {
                    let c = coef[k];
                    (
                        dr,
                        match c {
                            1 | 3 => Some(-0.75 + k as f64),
                            4 | 5 => Some(0.),
                            _ => None,
                        },
                        match c {
                            2 | 3 | 5 => Some(0.125 - 0.2 * k as f64),
                            _ => None,
                        },
                    )
                });
            }
            let order: Vec<El> = (0..4).map(El::L).chain(jp.into_iter().map(El::J)).collect();
            check_load(&r, &order, false, How::Value, i % 2 == 0, ctx)
        },
    ));
    // link data
    s.push(space(
        "link-data",
        prod(&[3, 2, 6, 9, 3, 4, 2, 3, 2]),
        "root, inner or end link: every geometry, origin, material and inertial setting, named or not, zero to two further visuals and collisions, f32 and f64",
        |i, ctx| {
            let mut d = Dec(i);
            let which = d.take(3);
            let single = d.take(2) == 1;
            let geo = d.take(6);
            let rpy = d.take(9);
            let xyz = d.take(3);
            let mat = d.take(4);
            let named = d.take(2) == 1;
            let more = d.take(3);
            let inertial = d.take(2) == 1;
            let mut r = structure(&[0, 1], true, 0, 0);
            let l = &mut r.links[which];
            let e = |k: usize| UElem {
                name: if named || k % 2 == 1 { Some(format!("e{}", k)) } else { None },
                pose: pose_code((xyz + k) % 3, (rpy + 2 * k) % 9),
                geo: geo_code((geo + k) % 6),
                material: material_code((mat + k) % 4),
            };
            l.visuals = (0..=more).map(e).collect();
            l.collisions = (0..=(more + 1) % 3).map(|k| UElem { material: None, ..e(k + 3) }).collect();
            l.collisions_first = i % 2 == 1;
            l.inertial = if inertial {
                Some((pose_code((xyz + 1) % 3, (rpy + 1) % 9), 2.5 + geo as f64, [1., 0.1, -0.2, 2., 0.3, 3.]))
            } else {
                None
            };
            let order = plain_order(&r);
            check_load(&r, &order, false, How::Ref, single, ctx)
        },
    ));
    // all numbers
    if !c23 {
        let few: &'static [f64] = &NUMBERS[..9];
        let f = FIELDS as u64;
        let v = NUMBERS.len() as u64;
        let w = if thorough { v } else { few.len() as u64 };
        let one = f * v * 3;
        let two = f * f * w * w;
        s.push(space(
            "numbers",
            (one + two) * 2,
            "every number of a robot, and every two of them, with values of 1e-9 to 1e9; compared to the last digits; f32 and f64",
            move |i, ctx| {
                let mut d = Dec(i);
                let single = d.take(2) == 1;
                let i = i / 2;
                let mut r = structure(&[0, 1], true, 0, 0);
                if i < one {
                    let mut d = Dec(i);
                    let (typ, x, a) = (d.take(3), NUMBERS[d.take(v as usize)], d.take(FIELDS));
                    for j in r.joints.iter_mut() {
                        j.typ = ["continuous", "prismatic", "revolute"][typ];
                    }
                    set_number(&mut r, a, x);
                } else {
                    let mut d = Dec(i - one);
                    let (x, y) = (NUMBERS[d.take(w as usize)], NUMBERS[d.take(w as usize)]);
                    let (a, b) = (d.take(FIELDS), d.take(FIELDS));
                    if b <= a {
                        return Ok(());
                    }
                    for j in r.joints.iter_mut() {
                        j.typ = ["continuous", "prismatic", "revolute"][(a + b) % 3];
                    }
                    set_number(&mut r, a, x);
                    set_number(&mut r, b, y);
                }
                if single {
                    check_numbers::<f32>(&r, ctx)
                } else {
                    check_numbers::<f64>(&r, ctx)
                }
            },
        ));
    }
    // from a file
    let sh = shapes(4);
    s.push(space(
        "file",
        sh.len() as u64 * prod(&[2, 4, 3, 2]),
        "every tree of four links loaded from a file, root declared or not, naming styles, mimics, f32 and f64",
        move |i, ctx| {
            let mut d = Dec(i);
            let shape = d.pick(&sh).clone();
            let declared = d.take(2) == 0;
            let style = d.take(4);
            let mimic = d.take(3);
            let single = d.take(2) == 1;
            let r = structure(&shape, declared, style, mimic);
            let order = permutation(7, i * 37).into_iter().map(|x| plain_order(&r)[x]).collect::<Vec<_>>();
            check_load(&r, &order, false, How::File, single, ctx)
        },
    ));
    s
}

fn main() {
    main_with(|id, t| match id {
        "C22" => Some(Check {
            id: "C22",
            spaces: spaces(t, false),
            assumptions: vec![
                "urdf_rs parses the text as the URDF specification says",
                "no lower limit is above the upper one; links and joints have unique names, every link but the root is moved by exactly one joint",
            ],
        }),
        "C23" => Some(Check {
            id: "C23",
            spaces: spaces(t, true),
            assumptions: vec!["no joint is named like the root node"],
        }),
        _ => None,
    })
}
