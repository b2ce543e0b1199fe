//! C27 builders, C28 links, C30 memory.
use k::joint::Range;
use k::link::*;
use k::{Chain, Joint, Node, NodeBuilder, SerialChain};
use kmc::ensure;
use kmc::fw::*;
use kmc::model::*;
use kmc::real::*;
use nalgebra as na;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

// ---------------------------------------------------------------- C27

#[derive(Clone, Copy, Debug)]
enum B {
    Name(usize),
    Type(usize),
    Limits(usize),
    Origin(usize),
    Trans(usize),
    Rot(usize),
    /// continue with a clone of the builder (the original is finished and thrown away)
    Clone,
}
const NAMES: [&str; 4] = ["elbow", "", "Elbow ", "肘/1"];
const KINDS: [Kind; 3] = [Kind::Fixed, Kind::Rot([0., -3., 4.]), Kind::Lin([1., 1., 1.])];
const LIMITS: [Option<(f64, f64)>; 4] = [None, Some((-1.0, 2.0)), Some((0.5, 0.5)), Some((1.5, 3.0))];
fn builder_ops() -> Vec<B> {
    let mut v = vec![];
    v.extend((0..2).map(B::Name));
    v.extend((0..3).map(B::Type));
    v.extend((0..4).map(B::Limits));
    v.extend([6, 7].iter().map(|i| B::Origin(*i)));
    v.extend([2, 1].iter().map(|i| B::Trans(*i)));
    v.extend([3, 7].iter().map(|i| B::Rot(*i)));
    v.push(B::Clone);
    v
}
fn range<T: Sc>(l: Option<(f64, f64)>) -> Option<Range<T>> {
    l.map(|(a, b)| (T::of(a)..=T::of(b)).into())
}
fn joint_check<T: Sc>(m: &MNode, org: &Pose, j: &Joint<T>) -> Result<(), String> {
    ensure!(j.name == m.name, "the joint is called '{}' instead of '{}'", j.name, m.name);
    let same = match (m.kind, &j.joint_type) {
        (Kind::Fixed, k::JointType::Fixed) => true,
        (Kind::Rot(a), k::JointType::Rotational { axis: x }) | (Kind::Lin(a), k::JointType::Linear { axis: x }) => {
            near(norm(sub(unit(a), [x[0].d(), x[1].d(), x[2].d()])), T::TOL)
        }
        _ => false,
    };
    ensure!(same, "the joint is {:?} instead of {:?}", j.joint_type, m.kind);
    match (m.limits, &j.limits) {
        (None, None) => {}
        (Some((a, b)), Some(r)) if r.min == T::of(a) && r.max == T::of(b) => {}
        _ => return Err(format!("the limits are {:?} instead of {:?}", j.limits, m.limits)),
    }
    check_pose("origin", j.origin(), org, T::TOL * 4.)?;
    ensure!(j.world_transform().is_none() && j.world_velocity().is_none(), "a new joint reports a pose");
    ensure!(j.is_movable() == m.kind.movable(), "is_movable is wrong");
    let zero = if m.kind.movable() { Some(T::of(0.)) } else { None };
    ensure!(j.joint_position() == zero && j.joint_velocity() == zero, "a new joint does not rest at zero");
    check_pose("local transform", &j.local_transform(), org, T::TOL * 4.)
}
fn c27_node<T: Sc>(seq: &[B], m: &mut MNode, ctx: &mut Ctx) -> Result<(), String> {
    let mut b = NodeBuilder::<T>::new();
    let mut org = Pose::ID;
    *m = MNode {
        name: String::new(),
        kind: Kind::Fixed,
        org: Org::ID,
        q: 0.,
        qd: 0.,
        limits: None,
        parent: None,
        link: None,
        mimic: None,
    };
    for op in seq {
        match *op {
            B::Name(i) => {
                b = b.name(NAMES[i]);
                m.name = NAMES[i].to_string();
            }
            B::Type(i) => {
                b = b.joint_type(jt(&KINDS[i]));
                m.kind = KINDS[i];
            }
            B::Limits(i) => {
                b = b.limits(range(LIMITS[i]));
                m.limits = LIMITS[i];
            }
            B::Origin(i) => {
                b = b.origin(iso(&ORGS[i]));
                org = ORGS[i].pose();
            }
            B::Trans(i) => {
                b = b.translation(iso(&ORGS[i]).translation);
                org.p = ORGS[i].t;
            }
            B::Rot(i) => {
                b = b.rotation(iso(&ORGS[i]).rotation);
                org.r = ORGS[i].pose().r;
            }
            B::Clone => {
                let c = b.clone();
                let _ = b.name("original").limits(None).into_node();
                b = c;
            }
        }
        ctx.step();
    }
    let d = b.clone();
    joint_check(m, &org, &b.finalize())?;
    let n = d.into_node();
    joint_check(m, &org, &*n.joint())?;
    ensure!(n.is_root() && n.is_end() && n.parent().is_none(), "a new node has relations");
    ensure!(n.mimic_parent().is_none() && n.link().is_none(), "a new node has a mimic parent or a link");
    ctx.state();
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum L {
    Name(usize),
    Inertial(usize),
    Visual(usize),
    Collision(usize),
}
fn link_ops() -> Vec<L> {
    let mut v = vec![];
    v.extend((0..2).map(L::Name));
    v.extend((0..2).map(L::Inertial));
    v.extend((0..3).map(L::Visual));
    v.extend((0..3).map(L::Collision));
    v
}
fn geom<T: Sc>(i: usize) -> Geometry<T> {
    match i {
        0 => Geometry::Box { depth: T::of(0.5), width: T::of(0.25), height: T::of(2.) },
        1 => Geometry::Cylinder { radius: T::of(0.5), length: T::of(4.) },
        2 => Geometry::Capsule { radius: T::of(0.25), length: T::of(8.) },
        3 => Geometry::Sphere { radius: T::of(0.125) },
        _ => Geometry::Mesh { filename: "a.stl".into(), scale: v3([1., 2., 4.]) },
    }
}
fn mass(i: usize) -> f64 {
    [1.5, 0.25][i % 2]
}
fn inertia<T: Sc>(i: usize) -> na::Matrix3<T> {
    na::Matrix3::new(
        T::of(1. + i as f64),
        T::of(2.),
        T::of(3.),
        T::of(4.),
        T::of(5.),
        T::of(6.),
        T::of(7.),
        T::of(8.),
        T::of(9.),
    )
}
fn material<T: Sc>(i: usize) -> Material<T> {
    Material {
        name: format!("m{}", i),
        color: Color { r: T::of(0.25), g: T::of(0.5), b: T::of(0.75 + i as f64), a: T::of(1.) },
        texture: Texture { filename: format!("t{}.png", i) },
    }
}
fn c27_link<T: Sc>(seq: &[L], ctx: &mut Ctx) -> Result<(), String> {
    let mut b = LinkBuilder::<T>::new();
    let (mut name, mut inert, mut vis, mut col) = (String::new(), None, vec![], vec![]);
    for op in seq {
        match *op {
            L::Name(i) => {
                b = b.name(NAMES[i]);
                name = NAMES[i].to_string();
            }
            L::Inertial(i) => {
                b = b.inertial(Inertial::new(iso(&ORGS[6 + i]), T::of(mass(i)), inertia(i)));
                inert = Some(i);
            }
            L::Visual(i) => {
                b = b.add_visual(Visual::new(format!("v{}", i), iso(&ORGS[2 + i]), geom(i), material(i)));
                vis.push(i);
            }
            L::Collision(i) => {
                b = b.add_collision(Collision::new(format!("c{}", i), iso(&ORGS[5 + i]), geom(2 + i)));
                col.push(i);
            }
        }
        ctx.step();
    }
    let l = b.finalize();
    for l in [&l, &l.clone()] {
        ensure!(l.name == name, "the link is called '{}' instead of '{}'", l.name, name);
        match inert {
            None => {
                ensure!(l.inertial.mass == T::of(0.) && l.inertial.inertia == na::Matrix3::identity(), "default inertia");
                check_pose("default inertial origin", l.inertial.origin(), &Pose::ID, T::TOL)?;
            }
            Some(i) => {
                ensure!(
                    l.inertial.mass == T::of(mass(i)) && l.inertial.inertia == inertia(i),
                    "inertia is {:?}",
                    l.inertial
                );
                check_pose("inertial origin", l.inertial.origin(), &ORGS[6 + i].pose(), T::TOL * 4.)?;
            }
        }
        ensure!(l.inertial.world_transform().is_none(), "a new link has a pose");
        ensure!(l.visuals.len() == vis.len() && l.collisions.len() == col.len(), "elements are missing");
        for (i, v) in vis.iter().zip(&l.visuals) {
            ensure!(v.name == format!("v{}", i), "visuals out of order");
            ensure!(format!("{:?}", v.geometry) == format!("{:?}", geom::<T>(*i)), "geometry is {:?}", v.geometry);
            ensure!(
                format!("{:?}", v.material) == format!("{:?}", material::<T>(*i)),
                "material is {:?}",
                v.material
            );
            ensure!(v.world_transform().is_none(), "a new visual has a pose");
            check_pose("visual origin", v.origin(), &ORGS[2 + i].pose(), T::TOL * 4.)?;
        }
        for (i, c) in col.iter().zip(&l.collisions) {
            ensure!(c.name == format!("c{}", i), "collisions out of order");
            ensure!(format!("{:?}", c.geometry) == format!("{:?}", geom::<T>(2 + *i)), "geometry is {:?}", c.geometry);
            ensure!(c.world_transform().is_none(), "a new collision has a pose");
            check_pose("collision origin", c.origin(), &ORGS[5 + i].pose(), T::TOL * 4.)?;
        }
    }
    ctx.state();
    Ok(())
}
fn c27_connect(n: usize, old: usize, ctx: &mut Ctx) -> Result<(), String> {
    // nodes that may have been attached elsewhere before
    let v: Vec<Node<f64>> = (0..6).map(|i| NodeBuilder::new().name(NAMES[i % 4]).into_node()).collect();
    let other = NodeBuilder::<f64>::new().name("other").into_node();
    for i in 0..6 {
        if old >> i & 1 == 1 {
            v[i].set_parent(&other);
        }
    }
    match n {
        2 => { k::connect!(v[0] => v[1]); }
        3 => {
            k::connect!(v[0] => v[1] => v[2]);
        }
        4 => {
            k::connect!(v[0] => v[1] => v[2] => v[3]);
        }
        5 => {
            k::connect!(v[0] => v[1] => v[2] => v[3] => v[4]);
        }
        _ => {
            k::connect!(v[0] => v[1] => v[2] => v[3] => v[4] => v[5]);
        }
    }
    for i in 1..6 {
        let p = v[i].parent();
        let want = if i < n {
            Some(v[i - 1].clone())
        } else if old >> i & 1 == 1 {
            Some(other.clone())
        } else {
            None
        };
        ensure!(p == want, "connect! of {} nodes: the parent of node {} is {:?}", n, i, p.map(|p| p.joint().name.clone()));
        let kids: Vec<usize> = v[i - 1].children().iter().map(|c| index_of(&v, c)).collect();
        ensure!(kids == if i < n { vec![i] } else { vec![] }, "children of node {}: {:?}", i - 1, kids);
    }
    ensure!(v[0].parent().is_some() == (old & 1 == 1), "connect! moved the first node");
    ctx.state();
    ctx.step();
    Ok(())
}
/// the nodes are written as expressions that do something
fn c27_connect_expr(n: usize, how: usize, ctx: &mut Ctx) -> Result<(), String> {
    let v: Vec<Node<f64>> = (0..6).map(|i| NodeBuilder::new().name(&format!("n{}", i)).into_node()).collect();
    let calls = std::cell::Cell::new(0);
    let chain = Chain::from_nodes(v.clone());
    let holder = NodeBuilder::<f64>::new().into_node();
    if how == 3 {
        for x in &v {
            x.set_parent(&holder);
        }
    }
    let mut it = v.iter();
    let mut next = || -> Node<f64> {
        calls.set(calls.get() + 1);
        match how {
            // the next of a list
            0 => it.next().unwrap().clone(),
            // a node made on the spot, which only the robot keeps
            1 => NodeBuilder::new().name(&format!("n{}", calls.get() - 1)).into_node(),
            // looked up by name
            2 => chain.find(&format!("n{}", calls.get() - 1)).unwrap().clone(),
            // taken from another robot
            _ => {
                let x = holder.children()[0].clone();
                x.remove_parent(&holder);
                x
            }
        }
    };
    let first = next();
    match n {
        2 => {
            k::connect!(first => next());
        }
        3 => {
            k::connect!(first => next() => next());
        }
        4 => {
            k::connect!(first => next() => next() => next());
        }
        5 => {
            k::connect!(&first => &next() => &next() => next() => next());
        }
        6 => {
            k::connect!(first => next() => next() => next() => next() => next());
        }
        _ => {
            // the first one, too
            k::connect!(next() => next() => next());
        }
    }
    let (calls, from, to) = (calls.get(), if n == 7 { 1 } else { 0 }, if n == 7 { 4 } else { n });
    ensure!(calls == to, "the {} nodes of connect! were asked for {} times", to, calls);
    if n == 7 && how == 1 {
        // nothing keeps them
        return Ok(());
    }
    let start = if n == 7 { v[1].clone() } else { first };
    let names: Vec<String> = start.iter_descendants().map(|x| x.joint().name.clone()).collect();
    let want: Vec<String> = (from..to).map(|i| format!("n{}", i)).collect();
    ensure!(names == want, "connect! made the path {:?} instead of {:?}", names, want);
    ctx.state();
    ctx.step();
    Ok(())
}
/// connect! of nodes behind references and guards
fn c27_connect_refs(which: usize, ctx: &mut Ctx) -> Result<(), String> {
    let v: Vec<Node<f64>> = (0..5).map(|i| NodeBuilder::new().name(&format!("n{}", i)).into_node()).collect();
    let base = NodeBuilder::<f64>::new().into_node();
    v[1].set_parent(&base);
    v[2].set_parent(&base);
    let c = Chain::from_root(base.clone());
    match which {
        0 => {
            k::connect!(v[0] => base.children()[0] => v[2] => v[3]);
        }
        1 => {
            k::connect!(v[0] => c.find("n1").unwrap() => c.find("n2").unwrap() => v[3]);
        }
        2 => {
            let r: Vec<&Node<f64>> = v.iter().collect();
            k::connect!(r[0] => *r[1] => &r[2] => r[3]);
        }
        _ => {
            let (a, b) = (Box::new(v[0].clone()), std::rc::Rc::new(v[2].clone()));
            k::connect!(*a => v[1] => *b => v[3]);
        }
    }
    for i in 1..4 {
        ensure!(v[i].parent().as_ref() == Some(&v[i - 1]), "form {}: node {} is not attached to the one before it", which, i);
        ensure!(v[i - 1].children().len() == 1, "form {}: children of node {}", which, i - 1);
    }
    ensure!(base.children().is_empty(), "form {}: a node is also attached elsewhere", which);
    ensure!(v[4].is_root() && v[0].is_root() && v[3].is_end(), "form {}: others were attached", which);
    ctx.state();
    ctx.step();
    Ok(())
}
/// numbers, names and counts of every size go through the builders as they are
const SIZES: [f64; 15] = [
    0., -0., 1e-12, -1e-9, 1e-6, -1e-3, 0.1, -1., 1.5, 3.1415, -12., 360., -1e4, 1e6, -1e9,
];
fn exact<T: Sc>(what: &str, got: T, want: f64) -> Result<(), String> {
    let (g, w) = (got.d(), T::of(want).d());
    ensure!(
        (g - w).abs() <= 8. * if T::TOL < 1e-6 { f64::EPSILON } else { f32::EPSILON as f64 } * w.abs(),
        "{} is {:?} instead of {:?}",
        what,
        g,
        w
    );
    Ok(())
}
fn exact_iso<T: Sc>(what: &str, got: &k::Isometry3<T>, want: &k::Isometry3<T>) -> Result<(), String> {
    for i in 0..3 {
        exact(&format!("{}: coordinate {}", what, i), got.translation.vector[i], want.translation.vector[i].d())?;
    }
    // the same rotation may be given by the opposite quaternion
    let sign = if got.rotation.coords.dot(&want.rotation.coords).d() < 0. { -1. } else { 1. };
    for i in 0..4 {
        exact(&format!("{}: rotation {}", what, i), got.rotation.coords[i], sign * want.rotation.coords[i].d())?;
    }
    Ok(())
}
fn long_names() -> Vec<String> {
    vec![
        String::new(),
        " ".into(),
        "Elbow".into(),
        " elbow ".into(),
        "{}".into(),
        "a\tb\nc".into(),
        "root".into(),
        "肘関節".into(),
        "/ns/arm/joint_1".into(),
        "x".repeat(70),
        "long ".repeat(80),
    ]
}
fn sized_iso<T: Sc>(i: usize) -> k::Isometry3<T> {
    let s = |k: usize| T::of(SIZES[(i + k) % SIZES.len()]);
    let turn = [0., 1e-9, -1e-6, 1e-3, -0.3, 1.5707963, 3.14159, -3.1415926][(i / SIZES.len()) % 8];
    let a = [[1., 0., 0.], [0., -1., 0.], [0.6, 0., 0.8], [-0.48, 0.64, 0.6]][i % 4];
    k::Isometry3::from_parts(
        na::Translation3::new(s(0), s(4), s(9)),
        na::UnitQuaternion::from_scaled_axis(na::Vector3::new(T::of(a[0] * turn), T::of(a[1] * turn), T::of(a[2] * turn))),
    )
}
fn c27_values_node<T: Sc>(name: &str, kind: &Kind, lim: Option<(f64, f64)>, at: usize, ctx: &mut Ctx) -> Result<(), String> {
    let o = sized_iso::<T>(at);
    let b = NodeBuilder::<T>::default().name(name).joint_type(jt(kind)).limits(range(lim));
    let whole = b.clone().origin(o).finalize();
    let parts = b.rotation(o.rotation).translation(o.translation).finalize();
    let mut direct = Joint::<T>::new(name, jt(kind));
    direct.set_origin(o);
    direct.limits = range(lim);
    let node = Node::new(direct.clone());
    let from: Node<T> = direct.clone().into();
    for j in [&whole, &parts, &direct, &*node.joint(), &*from.joint()] {
        ensure!(j.name == name, "the joint is called '{}' instead of '{}'", j.name, name);
        exact_iso("origin", j.origin(), &o)?;
        exact_iso("place of the new joint", &j.local_transform(), &o)?;
        match (lim, &j.limits) {
            (None, None) => {}
            (Some((a, b)), Some(r)) => {
                ensure!(r.min == T::of(a) && r.max == T::of(b), "the limits are {:?} instead of {:?}", r, lim);
            }
            _ => return Err(format!("the limits are {:?} instead of {:?}", j.limits, lim)),
        }
        match (kind, &j.joint_type) {
            (Kind::Fixed, k::JointType::Fixed) => {}
            (Kind::Rot(_), k::JointType::Rotational { axis }) | (Kind::Lin(_), k::JointType::Linear { axis }) => {
                let want = match jt::<T>(kind) {
                    k::JointType::Rotational { axis } | k::JointType::Linear { axis } => axis,
                    _ => unreachable!(),
                };
                for i in 0..3 {
                    exact("axis", axis[i], want[i].d())?;
                }
            }
            _ => return Err(format!("the joint is {:?} instead of {:?}", j.joint_type, kind)),
        }
        let rest = if kind.movable() { Some(T::of(0.)) } else { None };
        ensure!(j.joint_position() == rest && j.joint_velocity() == rest, "a new joint does not rest at zero");
        ensure!(j.world_transform().is_none() && j.world_velocity().is_none(), "a new joint reports a pose");
        ctx.step();
    }
    ctx.state();
    Ok(())
}
fn sized_geom<T: Sc>(i: usize, names: &[String]) -> (Geometry<T>, Vec<f64>, String) {
    let s = |k: usize| SIZES[(i + k) % SIZES.len()];
    let f = names[i % names.len()].clone();
    let v = vec![s(1), s(5), s(7)];
    let g = match i % 5 {
        0 => Geometry::Box { depth: T::of(v[0]), width: T::of(v[1]), height: T::of(v[2]) },
        1 => Geometry::Cylinder { radius: T::of(v[0]), length: T::of(v[1]) },
        2 => Geometry::Capsule { radius: T::of(v[0]), length: T::of(v[1]) },
        3 => Geometry::Sphere { radius: T::of(v[0]) },
        _ => Geometry::Mesh { filename: f.clone(), scale: v3([v[0], v[1], v[2]]) },
    };
    (g, v, f)
}
fn geom_check<T: Sc>(got: &Geometry<T>, i: usize, names: &[String]) -> Result<(), String> {
    let (g, v, f) = sized_geom::<T>(i, names);
    ensure!(std::mem::discriminant(got) == std::mem::discriminant(&g), "geometry is {:?} instead of {:?}", got, g);
    let have = match got {
        Geometry::Box { depth, width, height } => vec![*depth, *width, *height],
        Geometry::Cylinder { radius, length } | Geometry::Capsule { radius, length } => vec![*radius, *length],
        Geometry::Sphere { radius } => vec![*radius],
        Geometry::Mesh { filename, scale } => {
            ensure!(*filename == f, "the mesh is '{}' instead of '{}'", filename, f);
            vec![scale[0], scale[1], scale[2]]
        }
    };
    for (h, w) in have.iter().zip(&v) {
        exact("a size", *h, *w)?;
    }
    Ok(())
}
fn c27_values_link<T: Sc>(at: usize, count: usize, ctx: &mut Ctx) -> Result<(), String> {
    let names = long_names();
    let s = |k: usize| SIZES[(at + k) % SIZES.len()];
    let name = &names[at % names.len()];
    let tensor = na::Matrix3::from_fn(|r, c| T::of(SIZES[(at + 3 * r + c) % SIZES.len()]));
    let mat = |i: usize| Material::<T> {
        name: names[(at + i) % names.len()].clone(),
        color: Color { r: T::of(s(i)), g: T::of(s(i + 1)), b: T::of(s(i + 2)), a: T::of(s(i + 3)) },
        texture: Texture { filename: names[(at + 2 * i) % names.len()].clone() },
    };
    let mut b = LinkBuilder::<T>::default();
    let other = Inertial::from_mass(T::of(7.));
    for i in 0..count {
        if i == count / 2 {
            b = b.inertial(other.clone());
        }
        // names repeat
        b = b.add_visual(Visual::new(names[i % 3].clone(), sized_iso(at + i), sized_geom(at + i, &names).0, mat(i)));
        b = b.add_collision(Collision::new(names[i % 2].clone(), sized_iso(at + 3 * i), sized_geom(at + 2 * i, &names).0));
        ctx.step();
    }
    let o = sized_iso::<T>(at + 5);
    let l = b.name("before").inertial(Inertial::new(o, T::of(s(2)), tensor)).name(name).finalize();
    let node = NodeBuilder::<T>::new().into_node();
    node.set_link(Some(l.clone()));
    let held = node.link();
    for l in [&l, held.as_ref().ok_or("the link is lost")?] {
        ensure!(l.name == *name, "the link is called '{}' instead of '{}'", l.name, name);
        exact("mass", l.inertial.mass, s(2))?;
        exact_iso("inertial origin", l.inertial.origin(), &o)?;
        for i in 0..9 {
            exact("inertia", l.inertial.inertia[(i / 3, i % 3)], tensor[(i / 3, i % 3)].d())?;
        }
        ensure!(
            l.visuals.len() == count && l.collisions.len() == count,
            "{} visuals and {} collisions instead of {}",
            l.visuals.len(),
            l.collisions.len(),
            count
        );
        for i in 0..count {
            let (v, c) = (&l.visuals[i], &l.collisions[i]);
            ensure!(v.name == names[i % 3] && c.name == names[i % 2], "the elements at {} are '{}' and '{}'", i, v.name, c.name);
            exact_iso("visual origin", v.origin(), &sized_iso(at + i))?;
            exact_iso("collision origin", c.origin(), &sized_iso(at + 3 * i))?;
            geom_check(&v.geometry, at + i, &names)?;
            geom_check(&c.geometry, at + 2 * i, &names)?;
            let (m, w) = (&v.material, mat(i));
            ensure!(m.name == w.name && m.texture.filename == w.texture.filename, "material is {:?} instead of {:?}", m, w);
            exact("red", m.color.r, w.color.r.d())?;
            exact("green", m.color.g, w.color.g.d())?;
            exact("blue", m.color.b, w.color.b.d())?;
            exact("alpha", m.color.a, w.color.a.d())?;
            ensure!(v.world_transform().is_none() && c.world_transform().is_none(), "a new element has a pose");
            ctx.step();
        }
    }
    // the short forms
    let i = Inertial::<T>::from_mass(T::of(s(0)));
    exact("mass", i.mass, s(0))?;
    ensure!(i.inertia == na::Matrix3::identity() && i.world_transform().is_none(), "inertia from a mass: {:?}", i);
    exact_iso("origin", i.origin(), &k::Isometry3::identity())?;
    let d = k::link::Link::<T>::default();
    ensure!(
        d.name.is_empty()
            && d.visuals.is_empty()
            && d.collisions.is_empty()
            && d.inertial.mass == T::of(0.)
            && d.inertial.inertia == na::Matrix3::identity()
            && *d.inertial.origin() == k::Isometry3::identity(),
        "the default link is {:?}",
        d
    );
    ctx.state();
    Ok(())
}
fn c27_range<T: Sc>(a: usize, b: usize, ctx: &mut Ctx) -> Result<(), String> {
    const VS: [f64; 9] = [f64::NEG_INFINITY, -1e30, -1., -0.0, 0.0, 0.5, 1., f64::INFINITY, f64::NAN];
    let (x, y) = (T::of(VS[a]), T::of(VS[b]));
    let ok = x <= y;
    for via in 0..2 {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if via == 0 { Range::new(x, y) } else { (x..=y).into() }));
        match r {
            Ok(r) => {
                ensure!(ok, "a range from {:?} to {:?} was made", x, y);
                ensure!(r.min == x && r.max == y, "the range from {:?} to {:?} is {:?}", x, y, r);
            }
            Err(_) => ensure!(!ok, "no range from {:?} to {:?}", x, y),
        }
        ctx.state();
        ctx.step();
    }
    Ok(())
}
fn seqs<X: Copy>(ops: &[X], depth: usize, mut i: u64) -> Vec<X> {
    // all sequences of length 0..=depth
    let n = ops.len() as u64;
    let mut len = 0;
    while len < depth && i >= n.pow(len as u32) {
        i -= n.pow(len as u32);
        len += 1;
    }
    let mut d = Dec(i);
    (0..len).map(|_| *d.pick(ops)).collect()
}
fn seq_count(n: usize, depth: usize) -> u64 {
    (0..=depth).map(|l| (n as u64).pow(l as u32)).sum()
}
fn c27(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let (nd, ld) = if q { (5, 5) } else { (6, 6) };
    let mut blank = palette_node(0, 0, 0);
    blank.link = None;
    let s = vec![
        space(
            "node",
            seq_count(builder_ops().len(), nd),
            &format!("all sequences of up to {} of {} calls of the node builder", nd, builder_ops().len()),
            move |i, ctx| {
                let seq = seqs(&builder_ops(), nd, i);
                ctx.note(|| format!("{:?}", seq));
                let mut m = blank.clone();
                c27_node::<f64>(&seq, &mut m, ctx)?;
                c27_node::<f32>(&seq, &mut m, ctx).map_err(|e| format!("f32: {}", e))
            },
        ),
        space(
            "link",
            seq_count(link_ops().len(), ld),
            &format!("all sequences of up to {} of {} calls of the link builder", ld, link_ops().len()),
            move |i, ctx| {
                let seq = seqs(&link_ops(), ld, i);
                ctx.note(|| format!("{:?}", seq));
                c27_link::<f64>(&seq, ctx)?;
                c27_link::<f32>(&seq, ctx).map_err(|e| format!("f32: {}", e))
            },
        ),
        space(
            "values",
            11 * 9 * 46 * 120,
            "joints of every name (empty, blank, in any alphabet, hundreds of characters), axis and limits from minus to plus infinity, at origins of 1e-12 to 1e9 turned by 1e-9 to pi, by the builder and directly, f32 and f64",
            move |i, ctx| {
                let mut d = Dec(i);
                let at = d.take(120);
                let name = &long_names()[d.take(11)];
                let kind = [
                    Kind::Fixed,
                    Kind::Rot([1., 0., 0.]),
                    Kind::Rot([0., -1., 0.]),
                    Kind::Rot([1., 1e-6, 0.]),
                    Kind::Rot([0.3, -0.4, 5.]),
                    Kind::Lin([0., 0., 1.]),
                    Kind::Lin([0., 0., -1.]),
                    Kind::Lin([-2e-4, 1e-4, 3e-4]),
                    Kind::Lin([1e3, 2e3, -1.]),
                ][d.take(9)];
                const LS: [f64; 9] = [f64::NEG_INFINITY, -1e9, -1., -1e-9, 0., 1e-12, 0.5, 1e9, f64::INFINITY];
                let mut all = vec![None];
                for a in 0..9 {
                    all.extend((a..9).map(|b| Some((LS[a], LS[b]))));
                }
                let lim = all[d.take(46)];
                ctx.note(|| format!("'{}' {:?} limits {:?} origin {}", name, kind, lim, at));
                c27_values_node::<f64>(name, &kind, lim, at, ctx)?;
                c27_values_node::<f32>(name, &kind, lim, at, ctx).map_err(|e| format!("f32: {}", e))
            },
        ),
        space(
            "parts",
            15 * 8 * 12,
            "links of 0 to 70 visual and collision elements with repeated names, of any geometry and material, sizes of 1e-12 to 1e9, f32 and f64",
            |i, ctx| {
                let mut d = Dec(i);
                let at = d.take(120);
                let count = [0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 70][d.take(12)];
                ctx.note(|| format!("values from {}, {} elements", at, count));
                c27_values_link::<f64>(at, count, ctx)?;
                c27_values_link::<f32>(at, count, ctx).map_err(|e| format!("f32: {}", e))
            },
        ),
        space("connect", 5 * 64, "connect! of 2 to 6 nodes, any of which was attached elsewhere", |i, ctx| {
            let mut d = Dec(i);
            let n = 2 + d.take(5);
            let old = d.take(64);
            ctx.note(|| format!("{} nodes, attached before: {:b}", n, old));
            c27_connect(n, old, ctx)
        }),
        space("connect_expr", 6 * 4, "connect! of expressions that do something: lists, new nodes, look-ups", |i, ctx| {
            let mut d = Dec(i);
            let (n, how) = (2 + d.take(6), d.take(4));
            ctx.note(|| format!("{} nodes, way {}", n, how));
            c27_connect_expr(n, how, ctx)
        }),
        space("connect_refs", 4, "connect! of nodes behind references, boxes and guards", |i, ctx| {
            ctx.note(|| format!("form {}", i));
            c27_connect_refs(i as usize, ctx)
        }),
        space("range", 81, "ranges between 9 values, among them the infinities and NaN", |i, ctx| {
            let mut d = Dec(i);
            let (a, b) = (d.take(9), d.take(9));
            ctx.note(|| format!("values {} and {}", a, b));
            c27_range::<f64>(a, b, ctx)?;
            c27_range::<f32>(a, b, ctx)
        }),
    ];
    Check {
        id: "C27",
        spaces: s,
        assumptions: vec!["values outside of the alphabet behave like those in it"],
    }
}

// ---------------------------------------------------------------- C28

/// One element of a link as it must be reported
#[derive(Clone, Debug)]
struct El {
    org: Pose,
    pose: Option<Pose>,
}
#[derive(Clone, Debug)]
struct Lk {
    name: String,
    /// of every link another
    mass: f64,
    inertial: El,
    vis: Vec<El>,
    col: Vec<El>,
}
impl Lk {
    fn els(&mut self) -> Vec<&mut El> {
        let mut v = vec![&mut self.inertial];
        v.extend(self.vis.iter_mut());
        v.extend(self.col.iter_mut());
        v
    }
}
#[derive(Clone, Copy, Debug)]
enum K {
    /// a new link, of a palette, on a node
    Put(usize, usize),
    Remove(usize),
    /// take the link of a node, change it and put it back
    Origin(usize, usize, usize),
    Clear(usize, usize),
    Pose(usize, usize, usize),
    /// put a copy of the link of a node on another
    Copy(usize, usize),
    Move(usize, f64),
    Links(View),
    Others(View),
    /// a joint is given another origin
    Org(usize, usize),
    /// the nodes are related otherwise
    Mimic(usize, usize),
    Attach(usize, usize),
    Detach(usize),
}
fn c28_model(k: usize) -> Model {
    match k {
        0 => tree(&[None, Some(0), Some(1)], &[1, 2, 0], 0),
        _ => tree(&[None, Some(0), Some(0)], &[0, 1, 1], 1),
    }
}
fn c28_ops() -> Vec<K> {
    vec![
        K::Put(0, 2),
        K::Put(1, 1),
        K::Put(1, 2),
        K::Put(2, 3),
        K::Remove(1),
        K::Remove(2),
        K::Origin(1, 0, 7),
        K::Origin(1, 1, 6),
        K::Origin(0, 2, 3),
        K::Clear(1, 0),
        K::Clear(1, 1),
        K::Pose(1, 0, 4),
        K::Pose(2, 1, 4),
        K::Copy(1, 2),
        K::Copy(0, 1),
        K::Move(1, 0.7),
        K::Org(0, 6),
        K::Links(View::Tree(0)),
        K::Links(View::End(2)),
        K::Links(View::Part(1, 1)),
        K::Others(View::Tree(0)),
        K::Mimic(1, 2),
        K::Mimic(2, 1),
        K::Attach(2, 0),
        K::Attach(2, 1),
        K::Attach(1, 2),
        K::Detach(1),
    ]
}
fn lk_of(l: &MLink) -> Lk {
    let el = |o: &Org| El { org: o.pose(), pose: None };
    Lk {
        name: l.name.clone(),
        mass: l.mass,
        inertial: el(&l.inertial),
        vis: l.visuals.iter().map(el).collect(),
        col: l.collisions.iter().map(el).collect(),
    }
}
/// Changes the e-th element of a link: inertial, visuals, collisions
fn edit(l: &mut Link<f64>, e: usize, what: K) {
    let nv = l.visuals.len();
    macro_rules! doit {
        ($x:expr) => {
            match what {
                K::Origin(_, _, o) => $x.set_origin(iso(&ORGS[o])),
                K::Clear(..) => $x.clear_world_transform(),
                K::Pose(_, _, o) => $x.set_world_transform(iso(&ORGS[o])),
                _ => unreachable!(),
            }
        };
    }
    if e == 0 {
        doit!(l.inertial)
    } else if e <= nv {
        doit!(l.visuals[e - 1])
    } else if e - nv <= l.collisions.len() {
        doit!(l.collisions[e - nv - 1])
    }
}
fn el_check(what: &str, e: &El, org: &k::Isometry3<f64>, pose: &Option<k::Isometry3<f64>>) -> Result<(), String> {
    check_pose(&format!("origin of {}", what), org, &e.org, 1e-9)?;
    match (&e.pose, pose) {
        (None, None) => Ok(()),
        (Some(w), Some(g)) => check_pose(what, g, w, 1e-8),
        (None, Some(g)) => Err(format!("{} reports the outdated pose {:?}", what, pose_of(g))),
        (Some(_), None) => Err(format!("{} reports no pose", what)),
    }
}
fn c28_check(m: &Model, ls: &[Option<Lk>], nodes: &[Node<f64>]) -> Result<(), String> {
    for (i, l) in ls.iter().enumerate() {
        let g = nodes[i].link();
        match (l, &*g) {
            (None, None) => {}
            (Some(l), Some(g)) => {
                ensure!(l.name == g.name, "node {} carries '{}' instead of '{}'", i, g.name, l.name);
                ensure!(l.mass == g.inertial.mass, "node {} carries a link of mass {} instead of {}", i, g.inertial.mass, l.mass);
                ensure!(g.visuals.len() == l.vis.len() && g.collisions.len() == l.col.len(), "elements lost");
                el_check(&format!("inertial of node {}", i), &l.inertial, g.inertial.origin(), g.inertial.world_transform())?;
                for (k, v) in g.visuals.iter().enumerate() {
                    el_check(&format!("visual {} of node {}", k, i), &l.vis[k], v.origin(), v.world_transform())?;
                }
                for (k, v) in g.collisions.iter().enumerate() {
                    el_check(&format!("collision {} of node {}", k, i), &l.col[k], v.origin(), v.world_transform())?;
                }
            }
            (a, _) => return Err(format!("node {} must carry {:?}", i, a.as_ref().map(|l| &l.name))),
        }
    }
    // iteration
    for v in [View::Tree(0), View::Tree(1), View::End(2), View::Part(1, 1)] {
        let c = view(nodes, v);
        let want: Vec<(String, f64)> =
            indices(nodes, &c).iter().filter_map(|i| ls[*i].as_ref().map(|l| (l.name.clone(), l.mass))).collect();
        let got: Vec<(String, f64)> = c.iter_links().map(|l| (l.name.clone(), l.inertial.mass)).collect();
        ensure!(got == want, "{:?}: the links are {:?} instead of {:?}", v, got, want);
    }
    let _ = m;
    Ok(())
}
fn c28_case(robot: usize, seq: &[K], ctx: &mut Ctx) -> Result<(), String> {
    let mut m = c28_model(robot);
    let nodes = build::<f64>(&m);
    let mut ls: Vec<Option<Lk>> = vec![None; 3];
    let mut serial = 0;
    for op in seq {
        match *op {
            K::Put(i, p) => {
                let mut l = palette_link(i, p).unwrap();
                serial += 1;
                l.name = match (robot, serial % 2) {
                    (2, 1) => String::new(),
                    (2, _) => "same".into(),
                    _ => format!("{}.{}", l.name, serial),
                };
                l.mass = serial as f64 - 1.0;
                nodes[i].set_link(Some(link(&l)));
                ls[i] = Some(lk_of(&l));
            }
            K::Remove(i) => {
                nodes[i].set_link(None);
                ls[i] = None;
            }
            K::Origin(i, e, _) | K::Clear(i, e) | K::Pose(i, e, _) => {
                let before = ls.clone();
                let l = nodes[i].link().clone();
                if let (Some(mut l), Some(ml)) = (l, ls[i].as_mut()) {
                    edit(&mut l, e, *op);
                    // a copy is not the link of the node
                    c28_check(&m, &before, &nodes).map_err(|e| format!("changing a copy of a link: {}", e))?;
                    nodes[i].set_link(Some(l));
                    if let Some(x) = ml.els().into_iter().nth(e) {
                        match *op {
                            K::Origin(_, _, o) => {
                                *x = El { org: ORGS[o].pose(), pose: None };
                            }
                            K::Clear(..) => x.pose = None,
                            K::Pose(_, _, o) => x.pose = Some(ORGS[o].pose()),
                            _ => {}
                        }
                    }
                }
            }
            K::Copy(i, j) => {
                let l = nodes[i].link().clone();
                nodes[j].set_link(l);
                ls[j] = ls[i].clone();
            }
            K::Move(i, d) => {
                if m.nodes[i].kind.movable() {
                    m.nodes[i].q += d;
                    nodes[i].set_joint_position_unchecked(m.nodes[i].q);
                }
            }
            K::Org(i, o) => {
                m.nodes[i].org = ORGS[o];
                nodes[i].set_origin(iso(&ORGS[o]));
            }
            K::Links(v) => {
                view(&nodes, v).update_link_transforms();
                for i in view_nodes(&m, v) {
                    let w = m.world(i);
                    if let Some(l) = ls[i].as_mut() {
                        for e in l.els() {
                            e.pose = Some(w.mul(&e.org));
                        }
                    }
                }
            }
            K::Mimic(i, j) => {
                // each joint has one driver at most, and none drives itself
                let mut c = Some(j);
                while let Some(x) = c.filter(|x| *x != i) {
                    c = m.nodes[x].mimic.map(|t| t.0);
                }
                if c.is_none() {
                    nodes[i].set_mimic_parent(&nodes[j], k::joint::Mimic::new(2.0, 0.25));
                    m.nodes[i].mimic = Some((j, 2.0, 0.25));
                }
            }
            K::Attach(i, p) => {
                if !m.subtree(i).contains(&p) {
                    nodes[i].set_parent(&nodes[p]);
                    m.nodes[i].parent = Some(p);
                }
            }
            K::Detach(i) => {
                if let Some(p) = m.nodes[i].parent.take() {
                    nodes[i].remove_parent(&nodes[p]);
                }
            }
            K::Others(v) => {
                // nothing of this concerns the links
                let c = view(&nodes, v);
                c.update_transforms();
                c.update_velocities();
                let _ = k::center_of_mass(&c);
                let _ = format!("{}", c);
            }
        }
        ctx.step();
        c28_check(&m, &ls, &nodes).map_err(|e| format!("after {:?}: {}", op, e))?;
        let mut key = vec![m.key()];
        for l in ls.iter_mut() {
            match l {
                None => key.push(0),
                Some(l) => {
                    for e in l.els() {
                        key.push(e.org.p[0].to_bits());
                        key.push(e.pose.map_or(1, |p| p.p[1].to_bits()));
                    }
                }
            }
        }
        ctx.state_hash(hash_of(&key));
    }
    Ok(())
}
/// many nodes with links of many elements
fn c28_large(i: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut d = Dec(i);
    let n = [9usize, 20, 70, 300][d.take(4)];
    let shape = d.take(4);
    let per = [3usize, 20, 45][d.take(3)];
    let every = 1 + d.take(3);
    let sh: Vec<Option<usize>> = (0..n)
        .map(|i| if i == 0 { None } else { Some([i - 1, 0, (i - 1) / 2, i - 1 - (i + 1) % 2][shape]) })
        .collect();
    let kinds: Vec<u8> = (0..n).map(|i| [1, 2, 0][i % 3]).collect();
    let mut m = tree(&sh, &kinds, 0);
    for x in m.nodes.iter_mut().skip(4) {
        x.org.t = scale(x.org.t, 0.1);
    }
    ctx.note(|| m.describe());
    let nodes = build::<f64>(&m);
    let mut ls: Vec<Option<Lk>> = vec![None; n];
    for k in (0..n).step_by(every) {
        let l = MLink {
            name: if k % 4 == 3 { "same".into() } else { format!("link{}", k) },
            mass: k as f64,
            inertial: ORGS[k % 8],
            visuals: (0..(k * 7) % per).map(|e| ORGS[(e + k) % 8]).collect(),
            collisions: (0..(k * 5 + 2) % per).map(|e| ORGS[(e * 3 + k) % 8]).collect(),
        };
        nodes[k].set_link(Some(link(&l)));
        ls[k] = Some(lk_of(&l));
    }
    c28_check(&m, &ls, &nodes).map_err(|e| format!("at first: {}", e))?;
    for step in 0..6 {
        let v = match step {
            0 | 5 => View::Tree(0),
            1 => View::End(n - 1),
            2 => View::Tree(1),
            3 => View::Part(n - 1, m.path(n - 1)[1]),
            _ => View::Pick(0x5555555555555555),
        };
        view(&nodes, v).update_link_transforms();
        for i in view_nodes(&m, v) {
            let w = m.world(i);
            if let Some(l) = ls[i].as_mut() {
                for e in l.els() {
                    e.pose = Some(w.mul(&e.org));
                }
            }
        }
        ctx.step();
        c28_check(&m, &ls, &nodes).map_err(|e| format!("after an update through {:?}: {}", v, e))?;
        // everything moves, some links go, some change places
        for i in 0..n {
            if m.nodes[i].kind.movable() {
                m.nodes[i].q += [0.3, -0.2, 0.1][(i + step) % 3];
                nodes[i].set_joint_position_unchecked(m.nodes[i].q);
            }
            if i % 11 == step {
                nodes[i].set_link(None);
                ls[i] = None;
            }
            if i % 13 == step && i > 0 {
                let l = nodes[i - 1].link().clone();
                nodes[i].set_link(l);
                ls[i] = ls[i - 1].clone();
            }
        }
        c28_check(&m, &ls, &nodes).map_err(|e| format!("after moves following {:?}: {}", v, e))?;
        ctx.state_hash(m.key());
    }
    Ok(())
}
fn c28(t: Tier) -> Check {
    let d = if t == Tier::Quick { 4 } else { 5 };
    let n = c28_ops().len();
    Check {
        id: "C28",
        spaces: vec![space(
            "hist",
            3 * (n as u64).pow(d as u32),
            &format!("all sequences of {} of {} operations on links, on 2 robots of 3 nodes; links with and without names", d, n),
            move |i, ctx| {
                let mut dec = Dec(i);
                let r = dec.take(3);
                let seq: Vec<K> = (0..d).map(|_| *dec.pick(&c28_ops())).collect();
                ctx.note(|| format!("robot {} {:?}", r, seq));
                c28_case(r, &seq, ctx)
            },
        ), space("large", 4 * 4 * 3 * 3, "chains, stars, binary trees and combs of 9 to 300 nodes x links of up to 2, 19 or 44 visuals and collisions, on every, every other or every third node; 6 updates, moves, exchanges and removals", c28_large)],
        assumptions: vec!["histories of the given length; values in the alphabet"],
    }
}

// ---------------------------------------------------------------- C30

/// Counts what this thread has allocated and not freed
struct Counting;
/// names of joints are this long, which tells how many joints exist
const NAME_LEN: usize = 3000;
thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static NAMED: Cell<i64> = const { Cell::new(0) };
}
fn account(size: usize, by: i64) {
    let _ = BYTES.try_with(|b| b.set(b.get() + by * size as i64));
    let _ = BLOCKS.try_with(|b| b.set(b.get() + by));
    if size >= NAME_LEN && size < NAME_LEN + 64 {
        let _ = NAMED.try_with(|b| b.set(b.get() + by));
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size(), 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(l.size(), -1);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
fn in_use() -> (i64, i64) {
    (BYTES.with(|b| b.get()), BLOCKS.with(|b| b.get()))
}
fn named() -> i64 {
    NAMED.with(|b| b.get())
}

/// A handle somebody keeps
#[allow(dead_code)]
enum Handle {
    Node(Node<f64>),
    Chain(Chain<f64>),
    Serial(SerialChain<f64>),
    Anc(k::iterator::Ancestors<f64>),
    Desc(k::iterator::Descendants<f64>),
    Solver(k::JacobianIkSolver<f64>),
}
const HANDLES: usize = 8;
/// Which nodes a handle keeps alive, before what hangs below them
fn handle(kind: usize, i: usize, m: &Model, nodes: &[Node<f64>]) -> (Handle, Vec<usize>) {
    let root = m.path(i)[0];
    match kind {
        0 => (Handle::Node(nodes[i].clone()), vec![i]),
        1 => (Handle::Chain(Chain::from_root(nodes[i].clone())), vec![i]),
        2 => (Handle::Chain(Chain::from_end(&nodes[i])), vec![root]),
        3 => (Handle::Serial(SerialChain::from_end_to_root(&nodes[i], &nodes[i])), vec![i]),
        4 => {
            // it has given the node itself, and holds the parent
            let mut a = nodes[i].iter_ancestors();
            a.next();
            (Handle::Anc(a), m.nodes[i].parent.into_iter().collect())
        }
        5 => {
            let mut d = nodes[i].iter_descendants();
            d.next();
            (Handle::Desc(d), m.children(i))
        }
        6 => {
            // a solver that was used for an arm, successfully or not
            use k::InverseKinematicsSolver;
            let s = k::JacobianIkSolver::default();
            let arm = SerialChain::from_end(&nodes[i]);
            let plane = k::Constraints {
                position_z: false,
                rotation_x: false,
                rotation_y: false,
                rotation_z: false,
                ..Default::default()
            };
            let mut t = arm.end_transform();
            let _ = s.solve_with_constraints(&arm, &t, &plane);
            t.translation.vector[0] += 0.01;
            let _ = s.solve(&arm, &t);
            let _ = s.solve_with_constraints(&arm, &t, &plane);
            (Handle::Solver(s), vec![])
        }
        _ => {
            // a clone shares nothing with the original
            if i == 0 {
                let c = Chain::from_root(nodes[0].clone()).clone();
                drop(c);
            }
            (Handle::Chain(Chain::from_nodes(vec![])), vec![])
        }
    }
}
/// Everything that must be alive if `held` is
fn alive(m: &Model, held: &[usize]) -> Vec<bool> {
    let mut a = vec![false; m.nodes.len()];
    let mut todo = held.to_vec();
    while let Some(i) = todo.pop() {
        if !a[i] {
            a[i] = true;
            todo.extend(m.children(i));
            todo.extend(m.followers(i));
        }
    }
    a
}
/// no node may keep itself alive
fn no_loop(m: &Model) -> bool {
    let n = m.nodes.len();
    // reachability along children and followers
    (0..n).all(|i| {
        let mut next = m.children(i);
        next.extend(m.followers(i));
        !alive(m, &next)[i]
    })
}
fn c30_use(nodes: &[Node<f64>], m: &Model, what: usize) {
    let c = Chain::from_root(nodes[0].clone());
    match what {
        0 => {}
        1 => {
            c.update_transforms();
            c.update_velocities();
            c.update_link_transforms();
        }
        2 => {
            let n = m.nodes.len() - 1;
            let arm = SerialChain::from_end(&nodes[n]);
            let _ = k::jacobian(&arm);
            use k::InverseKinematicsSolver;
            let s = k::JacobianIkSolver::<f64>::default();
            let mut t = arm.end_transform();
            t.translation.vector[0] += 0.01;
            let _ = s.solve(&arm, &t);
            let _ = format!("{}", c);
        }
        _ => {
            // attached elsewhere and back
            let n = m.nodes.len() - 1;
            if let Some(p) = m.nodes[n].parent {
                nodes[n].set_parent(&nodes[0]);
                nodes[n].remove_parent(&nodes[0]);
                nodes[n].set_parent(&nodes[p]);
            }
            if let Some((d, mu, o)) = m.nodes[n].mimic {
                nodes[n].set_mimic_parent(&nodes[0], k::joint::Mimic::new(1., 1.));
                nodes[n].set_mimic_parent(&nodes[d], k::joint::Mimic::new(mu, o));
            }
        }
    }
}
struct Leak {
    m: Model,
    /// the same after a node has been detached
    after: Model,
    detach: Option<usize>,
    hk: usize,
    hi: usize,
    what: usize,
    /// how many nodes live as long as the handle does
    live: usize,
    parent_lives: bool,
}
fn c30_case(x: &Leak) -> Result<(), String> {
    let m = &x.m;
    let n = m.nodes.len();
    let base = in_use();
    let base_named = named();
    {
        let nodes: Vec<Node<f64>> = m.nodes.iter().map(|x| Node::new(joint(x))).collect();
        // how often a node stores its name
        let each = (named() - base_named) / n as i64;
        ensure!(each > 0, "no node stores its name");
        for i in 0..n {
            if let Some(p) = m.nodes[i].parent {
                nodes[i].set_parent(&nodes[p]);
            }
        }
        for i in 0..n {
            if let Some((d, mu, o)) = m.nodes[i].mimic {
                nodes[i].set_mimic_parent(&nodes[d], k::joint::Mimic::new(mu, o));
            }
            if let Some(l) = &m.nodes[i].link {
                nodes[i].set_link(Some(link(l)));
            }
        }
        c30_use(&nodes, m, x.what);
        if let Some(d) = x.detach {
            let p = m.nodes[d].parent.unwrap();
            nodes[d].remove_parent(&nodes[p]);
        }
        let (h, _) = handle(x.hk, x.hi, &x.after, &nodes);
        drop(nodes);
        if !matches!(h, Handle::Anc(_) | Handle::Desc(_)) {
            let live = (named() - base_named) / each;
            ensure!(
                live == x.live as i64,
                "{} nodes live as long as a handle that must keep exactly {}",
                live,
                x.live
            );
        }
        match &h {
            Handle::Node(k) => {
                ensure!(
                    k.parent().is_some() == x.parent_lives && k.is_root() == !x.parent_lives,
                    "the parent of the kept node is {}",
                    if x.parent_lives { "gone" } else { "still there" }
                );
                ensure!(
                    k.iter_descendants().count() == x.after.subtree(x.hi).len(),
                    "the kept node has lost nodes below it"
                );
            }
            Handle::Chain(c) => {
                for k in c.iter() {
                    k.set_joint_position_unchecked(0.5);
                }
                let _ = c.update_transforms();
            }
            Handle::Serial(k) => {
                let _ = k.end_transform();
            }
            _ => {}
        }
        drop(h);
    }
    let end = in_use();
    ensure!(
        end == base,
        "{} bytes in {} blocks are never freed",
        end.0 - base.0,
        end.1 - base.1
    );
    Ok(())
}
fn c30_run(mut m: Model, mut after: Model, hk: usize, hi: usize, det: Option<usize>, what: usize, ctx: &mut Ctx) -> Result<(), String> {
    let n = m.nodes.len();
    for (j, x) in m.nodes.iter_mut().enumerate() {
        x.name = format!("{:1$}", j, NAME_LEN + j % 60);
    }
    after.nodes.iter_mut().zip(&m.nodes).for_each(|(a, b)| a.name = b.name.clone());
    let held = match hk {
        0 | 1 | 3 => vec![hi],
        2 => vec![after.path(hi)[0]],
        _ => vec![],
    };
    let a = alive(&after, &held);
    let x = Leak {
        parent_lives: after.nodes[hi].parent.map_or(false, |p| a[p]),
        live: a.iter().filter(|x| **x).count(),
        m,
        after,
        detach: det,
        hk,
        hi,
        what,
    };
    // what is kept only once (buffers of the thread) is no leak
    for _ in 0..3 {
        if c30_case(&x).is_ok() {
            break;
        }
    }
    let r = c30_case(&x);
    ctx.state_hash(hash_of(&[x.after.key(), hk as u64, hi as u64, what as u64]));
    for _ in 0..n {
        ctx.step();
    }
    ctx.count("robots freed");
    r
}
fn c30_large(i: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut d = Dec(i);
    let n = [9usize, 20, 70, 300][d.take(4)];
    let shape = d.take(4);
    let rel = d.take(4);
    let hk = d.take(HANDLES);
    let hi = [0, n / 2, n - 1][d.take(3)];
    let det = [None, Some(n / 2), Some(1)][d.take(3)];
    let what = d.take(4);
    if n > 20 && (hk == 6 || what == 2) {
        // solving for many joints takes long
        return Ok(());
    }
    let sh: Vec<Option<usize>> = (0..n)
        .map(|i| if i == 0 { None } else { Some([i - 1, 0, (i - 1) / 2, i - 1 - (i + 1) % 2][shape]) })
        .collect();
    let mut m = tree(&sh, &(0..n).map(|i| 1 + (i % 2) as u8).collect::<Vec<_>>(), 0);
    // a follower is below its driver: no node keeps itself alive
    for k in 0..n {
        let dr = match rel {
            0 => None,
            1 => (k > 0).then(|| k - 1),
            2 => (k > 0).then_some(0),
            _ => (k > 1).then(|| k - 2),
        };
        m.nodes[k].mimic = dr.map(|x| (x, [1.0, -1.0][k % 2], 0.0));
        if i % 2 == 0 {
            m.nodes[k].link = palette_link(k, 2);
        }
    }
    let mut after = m.clone();
    if let Some(x) = det {
        after.nodes[x].parent = None;
    }
    ctx.note(|| format!("{}handle {} at {}, detached {:?}, use {}", m.describe(), hk, hi, det, what));
    c30_run(m, after, hk, hi, det, what, ctx)
}
fn c30_space(n: usize) -> Space {
    let sh = shapes(n);
    // every node but the first may follow any other node; kinds alternate
    let mim = prod(&vec![n + 1; n.min(3)]);
    let dims = [sh.len(), mim as usize, HANDLES, n, n, 4, 2];
    space(
        &format!("tree{}", n),
        prod(&dims),
        &format!(
            "all trees of {} nodes x mimic relations of {} joints x {} kinds of handle at every node x detached node x 4 uses x links or not",
            n,
            n.min(3),
            HANDLES
        ),
        move |i, ctx| {
            let mut d = Dec(i);
            let s = d.pick(&sh).clone();
            let mut m = tree(&s, &(0..n).map(|i| 1 + (i % 2) as u8).collect::<Vec<_>>(), 0);
            for j in 0..n.min(3) {
                let x = d.take(n + 1);
                let j = n - 1 - j;
                if x < n && x != j {
                    m.nodes[j].mimic = Some((x, 0.5, 0.1));
                }
            }
            let hk = d.take(HANDLES);
            let hi = d.take(n);
            let det = d.take(n);
            let det = if det == 0 { None } else { Some(det) };
            let what = d.take(4);
            if d.take(2) == 1 {
                for j in 0..n {
                    m.nodes[j].link = palette_link(j, 2);
                }
            }
            let mut after = m.clone();
            if let Some(x) = det {
                after.nodes[x].parent = None;
            }
            if !no_loop(&m) || !no_loop(&after) {
                ctx.count("robots with a joint that mimics its own descendant (not covered)");
                return Ok(());
            }
            ctx.note(|| format!("{}handle {} at {}, detached {:?}, use {}", m.describe(), hk, hi, det, what));
            c30_run(m, after, hk, hi, det, what, ctx)
        },
    )
}
fn c30(t: Tier) -> Check {
    let n = if t == Tier::Quick { 4 } else { 5 };
    Check {
        id: "C30",
        spaces: (1..=n)
            .map(c30_space)
            .chain([space(
                "large",
                prod(&[4, 4, 4, HANDLES, 3, 3, 4]),
                "chains, stars, binary trees and combs of 9 to 300 nodes x mimic relations x kinds of handle x detached node x uses",
                c30_large,
            )])
            .collect(),
        assumptions: vec![
            "robots in which a joint mimics its own descendant keep themselves alive and are not covered",
            "allocations are counted per thread; every case runs in one thread",
        ],
    }
}

fn main() {
    main_with(|id, t| match id {
        "C27" => Some(c27(t)),
        "C28" => Some(c28(t)),
        "C30" => Some(c30(t)),
        _ => None,
    })
}
