//! C31: work on separate parts of a robot, or on separate robots, does not interfere.
use crate::fw::*;
use crate::model::*;
use crate::real::*;
use crate::{explore, Setup};
use k::joint::Mimic;
use k::{Chain, Constraints, InverseKinematicsSolver, Isometry3, JacobianIkSolver, Node, SerialChain, Translation3};
use mcstd::mc::Task;
use std::cell::RefCell;
use std::rc::Rc;

/// What one task works on
struct Part {
    arm: SerialChain<f64>,
    nodes: Vec<Node<f64>>,
    /// a node of its own, in no tree at first
    tool: Node<f64>,
    /// where IK has to go: with all joints, and without the first
    goals: [V3; 2],
    /// the only solver of all tasks
    solver: Rc<JacobianIkSolver<f64>>,
    /// does a world pose depend on this part alone
    grounded: bool,
}
/// What an operation reported
type Obs = (Vec<f64>, String);

const NOTHING: f64 = 1e9;
fn iso_nums(i: &Isometry3<f64>) -> Vec<f64> {
    let q = i.rotation;
    // the same rotation has two quaternions
    let s = if q.w < 0. { -1. } else { 1. };
    vec![i.translation.x, i.translation.y, i.translation.z, s * q.i, s * q.j, s * q.k, s * q.w]
}
fn text<X: std::fmt::Debug>(x: X) -> Obs {
    (vec![], format!("{:?}", x))
}
fn planar() -> Constraints {
    Constraints { position_z: false, rotation_x: false, rotation_y: false, rotation_z: false, ..Constraints::default() }
}
/// the end, moved as small motions of the joints move it, to first order
fn target(p: &Part, d: V3) -> Isometry3<f64> {
    Translation3::new(d[0], d[1], d[2]) * p.arm.end_transform()
}
/// positions, and how it ended in numbers
fn solve(p: &Part, t: &Isometry3<f64>, c: &Constraints) -> Obs {
    let r = p.solver.solve_with_constraints(&p.arm, t, c);
    let mut v = positions(p);
    let text = match r {
        Ok(()) => "solved".to_string(),
        Err(k::Error::NotConvergedError { num_tried, position_diff, rotation_diff }) => {
            v.extend(position_diff.iter().chain(rotation_diff.iter()));
            format!("not converged after {}", num_tried)
        }
        Err(e) => e.to_string(),
    };
    (v, text)
}
fn poses(p: &Part) -> Vec<f64> {
    let mut v = vec![];
    for n in &p.nodes {
        match n.world_transform() {
            Some(t) => v.extend(iso_nums(&t)),
            None => v.extend([NOTHING; 7]),
        }
    }
    v
}
fn velocities(p: &Part) -> Vec<f64> {
    let mut v = vec![];
    for n in &p.nodes {
        match n.world_velocity() {
            Some(t) => v.extend(t.translation.iter().chain(t.rotation.iter())),
            None => v.extend([NOTHING; 6]),
        }
    }
    v
}
fn link_poses(p: &Part) -> Vec<f64> {
    let mut v = vec![];
    for n in &p.nodes {
        if let Some(l) = n.link().as_ref() {
            for t in [*l.inertial.world_transform()]
                .iter()
                .chain(l.visuals.iter().map(|x| x.world_transform()))
                .chain(l.collisions.iter().map(|x| x.world_transform()))
            {
                match t {
                    Some(t) => v.extend(iso_nums(t)),
                    None => v.extend([NOTHING; 7]),
                }
            }
        }
    }
    v
}
fn positions(p: &Part) -> Vec<f64> {
    p.nodes.iter().filter_map(|n| n.joint_position()).collect()
}
/// everything that may be seen of a part in the end
fn state(p: &Part, with_poses: bool) -> Vec<f64> {
    let mut v = positions(p);
    if p.grounded && with_poses {
        v.extend(poses(p));
        v.extend(velocities(p));
        v.extend(link_poses(p));
    }
    for n in p.nodes.iter().chain([&p.tool]) {
        v.push(n.children().len() as f64);
        v.push(n.parent().is_some() as u8 as f64);
        v.push(n.mimic_parent().is_some() as u8 as f64);
        v.extend(iso_nums(&n.origin()));
    }
    v
}

type Op = (&'static str, bool, fn(&Part) -> Obs);
macro_rules! ops {
    ($($name:literal $g:ident : |$s:ident| $body:expr),* $(,)?) => {
        vec![$(($name, stringify!($g) == "grounded", (|$s: &Part| -> Obs { $body }) as fn(&Part) -> Obs)),*]
    };
}
fn ops() -> Vec<Op> {
    ops![
        "set_joint_positions" any: |p| { let n = p.arm.dof(); text(p.arm.set_joint_positions(&[0.3, -0.2, 0.4, 0.1][..n])) },
        "set_joint_positions, rejected" any: |p| { let n = p.arm.dof(); text(p.arm.set_joint_positions(&[9.0; 4][..n])) },
        "set_joint_positions_clamped" any: |p| { let n = p.arm.dof(); p.arm.set_joint_positions_clamped(&[-5.0, 0.2, 5.0, 0.3][..n]); (vec![], String::new()) },
        "set_joint_positions_unchecked" any: |p| { let n = p.arm.dof(); p.arm.set_joint_positions_unchecked(&[0.1, 0.9, -0.4, 0.2][..n]); (vec![], String::new()) },
        "set one joint" any: |p| text(p.nodes[0].set_joint_position(0.45)),
        "joint_positions" any: |p| (p.arm.joint_positions(), String::new()),
        "end_transform" any: |p| (iso_nums(&p.arm.end_transform()), String::new()),
        "jacobian" any: |p| (k::jacobian(&p.arm).iter().copied().collect(), String::new()),
        "update_transforms" grounded: |p| { let mut v: Vec<f64> = p.arm.update_transforms().iter().flat_map(iso_nums).collect(); v.extend(poses(p)); (v, String::new()) },
        "update_velocities" grounded: |p| {
            let mut v: Vec<f64> = p.arm.update_velocities().iter().flat_map(|x| x.translation.iter().chain(x.rotation.iter()).copied().collect::<Vec<_>>()).collect();
            v.extend(velocities(p));
            (v, String::new())
        },
        "update_link_transforms" grounded: |p| { p.arm.update_link_transforms(); (link_poses(p), String::new()) },
        "center_of_mass" grounded: |p| (k::center_of_mass(&p.arm).iter().copied().collect(), String::new()),
        "ik" any: |p| { let t = target(p, p.goals[0]); solve(p, &t, &planar()) },
        "ik, out of reach" any: |p| { let t = target(p, [6.0, -9.0, 3.0]); solve(p, &t, &planar()) },
        "ik, a joint ignored" any: |p| {
            let name = p.nodes[0].joint().name.clone();
            let t = target(p, p.goals[1]);
            solve(p, &t, &Constraints { ignored_joint_names: vec![name], position_y: false, ..planar() })
        },
        "print" any: |p| (vec![], p.arm.to_string()),
        "tool attached" any: |p| { p.tool.set_parent(p.nodes.last().unwrap()); (vec![], p.nodes.last().unwrap().children().len().to_string()) },
        "end detached and attached again" any: |p| {
            let n = p.nodes.len();
            p.nodes[n - 1].remove_parent(&p.nodes[n - 2]);
            p.nodes[n - 1].set_parent(&p.nodes[n - 2]);
            (vec![], String::new())
        },
        "tool follows" any: |p| { p.tool.set_mimic_parent(&p.nodes[1], Mimic::new(2.0, 0.1)); let r = p.nodes[1].set_joint_position(0.2); (p.tool.joint_position().into_iter().collect(), format!("{:?}", r)) },
        "set_link" any: |p| { p.nodes[1].set_link(Some(link(&palette_link(9, 1).unwrap()))); (vec![], String::new()) },
        "set_origin" any: |p| { p.nodes[1].set_origin(iso(&ORGS[6])); (iso_nums(&p.nodes[1].origin()), String::new()) },
        "iteration" any: |p| (vec![], format!("{:?}", p.arm.iter_joints().map(|j| j.name.clone()).collect::<Vec<_>>())),
        "descendants" any: |p| (vec![], p.nodes[0].iter_descendants().filter(|n| *n == p.tool || p.nodes.contains(n)).count().to_string()),
    ]
}
/// those of the quick tier's sequences
fn short() -> Vec<usize> {
    let all = ops();
    let names = [
        "set_joint_positions",
        "set_joint_positions_clamped",
        "set one joint",
        "end_transform",
        "jacobian",
        "update_transforms",
        "center_of_mass",
        "ik",
        "tool attached",
        "tool follows",
        "set_origin",
    ];
    names.iter().map(|n| all.iter().position(|o| o.0 == *n).expect("an operation")).collect()
}
/// those that change nothing, and so may be anywhere
fn readers() -> Vec<(&'static str, fn(&Chain<f64>, &SerialChain<f64>))> {
    // "(updates)": poses may be those of now afterwards
    vec![
        ("joint_positions of all", |w, _| drop(w.joint_positions())),
        ("print all", |w, _| drop(w.to_string())),
        ("clone all", |w, _| drop(Robot(w.clone().iter().cloned().collect()))),
        ("center_of_mass of all (updates)", |w, _| drop(k::center_of_mass(w))),
        ("jacobian (updates)", |_, a| drop(k::jacobian(a))),
        ("end_transform", |_, a| drop(a.end_transform())),
        ("iterate over joints and links of all", |w, _| {
            let n = w.iter_joints().map(|j| j.name.len()).sum::<usize>();
            let m = w.iter_links().map(|l| l.name.len()).sum::<usize>();
            drop((n, m))
        }),
        ("make chains", |w, a| {
            let root = w.iter().next().unwrap().clone();
            drop(Chain::from_root(root));
            drop(Chain::from_end(a.iter().last().unwrap()));
            drop(w.find("nothing").is_some())
        }),
    ]
}

/// end and start of a part
type Ends = (usize, Option<usize>);
struct World {
    name: &'static str,
    m: Model,
    parts: [Ends; 2],
    goals: [[V3; 2]; 2],
    grounded: [bool; 2],
    /// every part has a robot of its own
    twins: bool,
}
fn worlds() -> Vec<World> {
    let base = |parents: &[Option<usize>], kinds: &[u8], plain: bool| {
        let mut m = tree(parents, kinds, 0);
        for (i, n) in m.nodes.iter_mut().enumerate() {
            n.name = format!("j{}", i);
            n.link = palette_link(i, [1, 2, 3][i % 3]);
            n.limits = if n.kind.movable() && i % 3 == 0 { Some((-2.0, 2.0)) } else { None };
            n.q = if n.kind.movable() { 0.2 + 0.1 * i as f64 } else { 0. };
            n.qd = if n.kind.movable() { 0.3 } else { 0. };
            if plain {
                n.org = Org { t: [0.3, 0.1, 0.05], ..Org::ID };
            }
        }
        m
    };
    let two = [None, Some(0), Some(1), Some(2), Some(0), Some(4), Some(5)];
    let line = [None, Some(0), Some(1), Some(2), Some(3), Some(4)];
    let three = [None, Some(0), Some(1)];
    let mut hands = base(&[None, Some(0), Some(1), Some(2), Some(0), Some(4), Some(5), Some(3), Some(6)], &[1, 1, 1, 1, 1, 1, 1, 2, 2], true);
    // fingers: followers of joints of the arm, outside of it
    hands.nodes[7].mimic = Some((3, 0.5, 0.));
    hands.nodes[8].mimic = Some((6, -0.5, 0.1));
    for i in [3, 6, 7, 8] {
        hands.nodes[i].limits = None;
    }
    let mut coupled = base(&two, &[1, 1, 1, 1, 1, 1, 1], false);
    coupled.nodes[3].mimic = Some((1, 0.5, 0.1));
    coupled.nodes[4].mimic = Some((6, 1.0, 0.));
    for i in [1, 3, 4, 6] {
        coupled.nodes[i].limits = None;
    }
    let mut ws = vec![
        World { name: "two arms on a torso", m: base(&two, &[1, 1, 1, 1, 1, 2, 1], true), parts: [(3, Some(1)), (6, Some(4))], grounded: [true, true], goals: [[[0.; 3]; 2]; 2], twins: false },
        World { name: "two arms from a fixed base", m: base(&two, &[0, 1, 1, 1, 1, 1, 1], false), parts: [(3, None), (6, None)], grounded: [true, true], goals: [[[0.; 3]; 2]; 2], twins: false },
        World { name: "arm and forearm", m: base(&line, &[1, 1, 1, 1, 1, 1], false), parts: [(2, None), (5, Some(3))], grounded: [true, false], goals: [[[0.; 3]; 2]; 2], twins: false },
        World { name: "arms with fingers", m: hands, parts: [(3, Some(1)), (6, Some(4))], grounded: [true, true], goals: [[[0.; 3]; 2]; 2], twins: false },
        World { name: "arms with coupled joints", m: coupled, parts: [(3, Some(1)), (6, Some(4))], grounded: [true, true], goals: [[[0.; 3]; 2]; 2], twins: false },
        World { name: "a robot and its clone", m: base(&three, &[1, 1, 1], true), parts: [(2, None), (2, None)], grounded: [true, true], goals: [[[0.; 3]; 2]; 2], twins: true },
    ];
    for w in ws.iter_mut() {
        for (k, (end, root)) in w.parts.iter().enumerate() {
            let path = root.map_or(w.m.path(*end), |r| view_nodes(&w.m, View::Part(*end, r)));
            let jac = w.m.jacobian(&path);
            for g in 0..2 {
                for x in 0..3 {
                    // the first joint is the one that is ignored
                    w.goals[k][g][x] = (g..jac.len()).map(|i| jac[i][x] * [0.05, -0.03, 0.04, 0.02][i]).sum();
                }
            }
        }
    }
    ws
}
/// the parts, and what must live as long
fn make(w: &World, updated: bool) -> (Vec<Part>, Vec<Rc<Robot<f64>>>, Chain<f64>) {
    let nodes = Rc::new(build::<f64>(&w.m));
    let solver = Rc::new(JacobianIkSolver::new(0.003, 0.001, 1.0, 2));
    let whole = Chain::from_root(nodes[0].clone());
    if updated {
        whole.update_velocities();
        whole.update_link_transforms();
    }
    let mut robots = vec![nodes.clone()];
    let mut parts = vec![];
    for (k, (e, r)) in w.parts.iter().enumerate() {
        let nodes = if w.twins && k == 1 {
            let c = whole.clone();
            let all = Rc::new(Robot(c.iter().cloned().collect::<Vec<_>>()));
            robots.push(all.clone());
            all
        } else {
            nodes.clone()
        };
        let arm = serial(&nodes, *e, *r);
        let own: Vec<Node<f64>> = arm.iter().filter(|n| **n != nodes[0] || r.is_none() && w.m.nodes[0].kind.movable()).cloned().collect();
        let tool = Node::new(joint::<f64>(&MNode { name: format!("tool{}", k), ..palette_node(3 + k, 1, 0) }));
        tool.joint().name.len();
        parts.push(Part { goals: w.goals[k], arm, nodes: own, tool, solver: solver.clone(), grounded: w.grounded[k] });
    }
    (parts, robots, whole)
}
type Results = (Vec<Obs>, Vec<f64>);
/// what a part sees if there is no one else
fn alone(w: &World, updated: bool, k: usize, seq: &[usize], with_poses: bool, all: &[Op]) -> Results {
    let (parts, _robots, _whole) = make(w, updated);
    let obs = seq.iter().map(|i| all[*i].2(&parts[k])).collect();
    let s = state(&parts[k], with_poses);
    (obs, s)
}
fn same_nums(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near((x - y).abs(), 1e-9 * (1. + x.abs())))
}
fn compare(got: &Results, want: &Results, seq: &[usize], all: &[Op]) -> Result<(), String> {
    for (i, (g, w)) in got.0.iter().zip(&want.0).enumerate() {
        if !same_nums(&g.0, &w.0) || g.1 != w.1 {
            return Err(format!("{:?} reported {:?}, alone {:?}", all[seq[i]].0, g, w));
        }
    }
    if !same_nums(&got.1, &want.1) {
        return Err(format!("afterwards the state is {:?}, alone {:?}", got.1, want.1));
    }
    Ok(())
}
fn names(seq: &[usize], all: &[Op]) -> Vec<&'static str> {
    seq.iter().map(|i| all[*i].0).collect()
}
fn program(w: &World, updated: bool, seqs: [Vec<usize>; 2], reader: Option<usize>, bound: usize, ctx: &mut Ctx) -> Result<(), String> {
    let all = ops();
    for k in 0..2 {
        if seqs[k].iter().any(|i| all[*i].1 && !w.grounded[k]) {
            return Ok(());
        }
    }
    ctx.note(|| {
        format!(
            "{}{}: {:?} beside {:?}, reader {:?}\n{}",
            w.name,
            if updated { ", updated before" } else { "" },
            names(&seqs[0], &all),
            names(&seqs[1], &all),
            reader.map(|r| readers()[r].0),
            w.m.describe()
        )
    });
    let with_poses = reader.map_or(true, |r| !readers()[r].0.contains("(updates)"));
    let want: Vec<Results> = (0..2).map(|k| alone(w, updated, k, &seqs[k], with_poses, &all)).collect();
    let want = Rc::new(want);
    explore(bound, ctx, || -> Setup {
        let (parts, robots, whole) = make(w, updated);
        let parts = Rc::new(parts);
        let results: Vec<Rc<RefCell<Vec<Obs>>>> = (0..2).map(|_| Rc::new(RefCell::new(vec![]))).collect();
        let mut tasks: Vec<Task> = vec![];
        for k in 0..2 {
            if seqs[k].is_empty() {
                continue;
            }
            let (p, r, seq) = (parts.clone(), results[k].clone(), seqs[k].clone());
            let f: Vec<fn(&Part) -> Obs> = seq.iter().map(|i| all[*i].2).collect();
            tasks.push(Box::new(move || {
                for g in f {
                    let o = g(&p[k]);
                    r.borrow_mut().push(o);
                }
            }));
        }
        if let Some(i) = reader {
            let (p, f) = (parts.clone(), readers()[i].1);
            let whole = Chain::from_nodes(whole.iter().cloned().collect());
            tasks.push(Box::new(move || f(&whole, &p[0].arm)));
        }
        let (want, seqs) = (want.clone(), seqs.clone());
        let all = ops();
        (
            tasks,
            Box::new(move || {
                for k in 0..2 {
                    if seqs[k].is_empty() {
                        continue;
                    }
                    let got = (results[k].borrow().clone(), state(&parts[k], with_poses));
                    compare(&got, &want[k], &seqs[k], &all).map_err(|e| format!("part {}: {}", k, e))?;
                }
                drop((robots, whole));
                Ok(())
            }),
        )
    })
}

pub fn check(t: Tier) -> Check {
    let thorough = t == Tier::Thorough;
    let n = ops().len();
    let mut s = vec![];
    let count = worlds().len();
    for wi in 0..count {
        let name = worlds()[wi].name;
        let bound = if thorough { 3 } else { 2 };
        s.push(space(
            &format!("pairs/{}", name),
            prod(&[n, n, 2]),
            &format!("every operation on one part beside every operation on the other, {} operations, with and without an update before, at most {} preemptions", n, bound),
            move |i, ctx| {
                let mut d = Dec(i);
                let (a, b, u) = (d.take(n), d.take(n), d.take(2));
                program(&worlds()[wi], u == 1, [vec![a], vec![b]], None, bound, ctx)
            },
        ));
        let bound = if thorough { 2 } else { 1 };
        let some = if thorough { (0..n).collect() } else { short() };
        let l = some.len();
        s.push(space(
            &format!("sequences/{}", name),
            prod(&[l, l, l]),
            &format!("every two of {} operations on one part beside every one on the other, at most {} preemptions", l, bound),
            move |i, ctx| {
                let mut d = Dec(i);
                let (a, a2, b) = (*d.pick(&some), *d.pick(&some), *d.pick(&some));
                program(&worlds()[wi], i % 2 == 1, [vec![a, a2], vec![b]], None, bound, ctx)
            },
        ));
        let r = readers().len();
        let bound = if thorough { 3 } else { 2 };
        s.push(space(
            &format!("beside-readers/{}", name),
            prod(&[n, r, 2]),
            &format!("every operation beside every operation on the whole robot that only reads, at most {} preemptions", bound),
            move |i, ctx| {
                let mut d = Dec(i);
                let (a, r, u) = (d.take(n), d.take(r), d.take(2));
                program(&worlds()[wi], u == 1, [vec![a], vec![]], Some(r), bound, ctx)
            },
        ));
    }
    Check {
        id: "C31",
        spaces: s,
        assumptions: vec![
            "sequential consistency; tasks interact through locks and atomics only, which safe Rust guarantees",
            "a centre of mass or Jacobian may update poses: beside these, poses are compared only where an operation of the part reports them",
            "the parts share no movable joint, and no joint of one mimics a joint of the other",
            "numbers are compared to 1e-9",
        ],
    }
}
