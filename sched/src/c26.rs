//! C26: concurrent use never deadlocks and never panics.
use crate::fw::*;
use crate::model::*;
use crate::real::*;
use crate::{explore, Setup};
use k::joint::Mimic;
use k::{Chain, Constraints, InverseKinematicsSolver, Isometry3, JacobianIkSolver, SerialChain, Translation3};
use mcstd::mc::Task;
use std::cell::RefCell;
use std::rc::Rc;

/// What the operations work on. All robots have the same tree:
/// 0 - 1 - 2 - 3 (the arm), 4 and 5 below 1, 6 alone.
struct Set {
    nodes: Robot<f64>,
    whole: Chain<f64>,
    part: Chain<f64>,
    arm: SerialChain<f64>,
    /// the arm once more, for functions that own it
    same_arm: std::sync::Arc<SerialChain<f64>>,
    /// taken apart in the end, as a joint that mimics its own descendant is never freed otherwise
    clones: RefCell<Vec<Robot<f64>>>,
}
fn keep(s: &Set, c: Chain<f64>) {
    s.clones.borrow_mut().push(Robot(c.iter().cloned().collect()));
}
const PARENTS: [Option<usize>; 7] = [None, Some(0), Some(1), Some(2), Some(1), Some(1), None];

fn robots() -> Vec<(&'static str, Model)> {
    let lim = Some((-2.0, 2.0));
    let base = || Model {
        nodes: (0..7)
            .map(|i| MNode {
                parent: PARENTS[i],
                q: 0.1 * i as f64,
                qd: 0.3,
                limits: if i % 2 == 1 { lim } else { None },
                link: palette_link(i, [1, 2, 3, 2, 0, 1, 0][i]),
                ..palette_node(i, if i == 2 { 2 } else { 1 }, 0)
            })
            .collect(),
    };
    let with = |r: &[(usize, usize, f64)]| {
        let mut m = base();
        for (i, d, k) in r {
            m.nodes[*i].mimic = Some((*d, *k, 0.));
        }
        m
    };
    vec![
        ("no mimics", base()),
        ("followers below their driver", with(&[(3, 1, 0.5), (4, 1, -1.0)])),
        ("a follower above its driver", with(&[(1, 3, 0.5)])),
        ("a chain of followers up the tree", with(&[(2, 3, 0.5), (0, 2, 1.0)])),
        ("a chain of followers down the tree", with(&[(2, 0, 0.5), (4, 2, 1.0)])),
        ("followers above and below", with(&[(0, 1, 0.5), (5, 1, 1.0), (2, 3, -1.0)])),
        ("drivers and followers crossing", with(&[(4, 2, 1.0), (3, 5, 0.5), (0, 5, 0.25)])),
    ]
}
fn make(m: &Model) -> Set {
    let nodes = build::<f64>(m);
    let whole = Chain::from_root(nodes[0].clone());
    let part = Chain::from_end(&nodes[5]);
    let arm = SerialChain::from_end_to_root(&nodes[3], &nodes[1]);
    let same_arm = std::sync::Arc::new(SerialChain::from_end_to_root(&nodes[3], &nodes[1]));
    Set { nodes, whole, part, arm, same_arm, clones: RefCell::new(vec![]) }
}

fn target(s: &Set, d: f64) -> Isometry3<f64> {
    let e = s.arm.end_transform();
    Translation3::new(0.01 * d, 0.02 * d, -0.01 * d) * e
}
fn xyz() -> Constraints {
    Constraints {
        rotation_x: false,
        rotation_y: false,
        rotation_z: false,
        position_z: false,
        ..Constraints::default()
    }
}

type Op = (&'static str, fn(&Set));
macro_rules! ops {
    ($($name:literal : |$s:ident| $body:expr),* $(,)?) => {
        vec![$(($name, (|$s: &Set| { let _ = $body; }) as fn(&Set))),*]
    };
}
/// every public operation on a shared robot
fn ops() -> Vec<Op> {
    ops![
        "set_joint_position 1": |s| s.nodes[1].set_joint_position(0.5),
        "set_joint_position 2": |s| s.nodes[2].set_joint_position(0.5),
        "set_joint_position 3": |s| s.nodes[3].set_joint_position(0.25),
        "set_joint_position 5, rejected": |s| s.nodes[5].set_joint_position(9.0),
        "set_joint_position_clamped 3": |s| s.nodes[3].set_joint_position_clamped(5.0),
        "set_joint_position_clamped 0": |s| s.nodes[0].set_joint_position_clamped(-5.0),
        "set_joint_position_clamped 5": |s| s.nodes[5].set_joint_position_clamped(-5.0),
        "set_joint_position_unchecked 1": |s| s.nodes[1].set_joint_position_unchecked(0.7),
        "set_origin 1": |s| s.nodes[1].set_origin(Isometry3::translation(0., 0.5, 0.)),
        "node state": |s| (
            s.nodes[1].joint_position(),
            s.nodes[1].world_transform(),
            s.nodes[1].world_velocity(),
            s.nodes[1].origin(),
            { let n = s.nodes[1].joint().name.clone(); n },
            { let t = s.nodes[1].joint().local_transform(); t },
        ),
        "node relations": |s| (
            s.nodes[1].parent(),
            { let n = s.nodes[1].children().len(); n },
            s.nodes[1].is_root(),
            s.nodes[1].is_end(),
            s.nodes[1].mimic_parent(),
        ),
        "iter_ancestors 3": |s| s.nodes[3].iter_ancestors().count(),
        "iter_descendants 0": |s| s.nodes[0].iter_descendants().count(),
        "set_parent 4, 2": |s| s.nodes[4].set_parent(&s.nodes[2]),
        "set_parent 5, 4": |s| s.nodes[5].set_parent(&s.nodes[4]),
        "set_parent 6, 3": |s| s.nodes[6].set_parent(&s.nodes[3]),
        "set_parent 2, 0": |s| s.nodes[2].set_parent(&s.nodes[0]),
        "remove_parent 4, 1": |s| s.nodes[4].remove_parent(&s.nodes[1]),
        "remove_parent 2, 1": |s| s.nodes[2].remove_parent(&s.nodes[1]),
        "remove_parent 3, 2": |s| s.nodes[3].remove_parent(&s.nodes[2]),
        "remove_parent 1, 0": |s| s.nodes[1].remove_parent(&s.nodes[0]),
        "set_parent 3, 2": |s| s.nodes[3].set_parent(&s.nodes[2]),
        "set_mimic_parent 5, 1": |s| if s.nodes[1].mimic_parent().is_none() { s.nodes[5].set_mimic_parent(&s.nodes[1], Mimic::new(0.5, 0.)) },
        "set_mimic_parent 4, 2": |s| s.nodes[4].set_mimic_parent(&s.nodes[2], Mimic::new(0.5, 0.)),
        "set_link 3, none": |s| s.nodes[3].set_link(None),
        "set_link 4": |s| s.nodes[4].set_link(Some(link(&palette_link(4, 2).unwrap()))),
        "link 3": |s| s.nodes[3].link().as_ref().map(|l| l.name.clone()),
        "print node 1": |s| s.nodes[1].to_string(),
        "debug print node 0": |s| format!("{:?}", s.nodes[0]),
        "from_root": |s| Chain::from_root(s.nodes[0].clone()),
        "from_end": |s| Chain::from_end(&s.nodes[5]),
        "from_end_to_root": |s| Chain::from_end_to_root(&s.nodes[3], &s.nodes[1]),
        "from_nodes": |s| Chain::from_nodes(s.nodes[..6].to_vec()),
        "iter": |s| s.whole.iter().map(|n| n.joint_position()).collect::<Vec<_>>(),
        "iter_joints": |s| s.whole.iter_joints().map(|j| j.name.len()).sum::<usize>(),
        "iter_links": |s| s.whole.iter_links().map(|l| l.name.len()).sum::<usize>(),
        "find": |s| s.whole.find("j3").map(|n| n.joint_position()),
        "dof": |s| s.whole.dof(),
        "joint_positions": |s| s.whole.joint_positions(),
        "set_joint_positions": |s| s.whole.set_joint_positions(&[0.1; 6]),
        "set_joint_positions, rejected": |s| s.whole.set_joint_positions(&[0.1, 0.2, 7.0, 7.0, 7.0, 7.0]),
        "set_joint_positions, wrong length": |s| s.whole.set_joint_positions(&[0.1; 3]),
        "set_joint_positions of a part": |s| s.part.set_joint_positions(&[0.2; 3]),
        "set_joint_positions_clamped": |s| s.whole.set_joint_positions_clamped(&[3.0; 6]),
        "set_joint_positions_unchecked": |s| s.arm.set_joint_positions_unchecked(&[0.2; 3]),
        "chain origin": |s| s.whole.origin(),
        "chain set_origin": |s| s.whole.set_origin(Isometry3::translation(0.5, 0., 0.)),
        "update_transforms": |s| s.whole.update_transforms(),
        "update_transforms of a part": |s| s.part.update_transforms(),
        "update_transforms of the arm": |s| s.arm.update_transforms(),
        "update_velocities": |s| s.whole.update_velocities(),
        "update_velocities of the arm": |s| s.arm.update_velocities(),
        "update_link_transforms": |s| s.whole.update_link_transforms(),
        "print": |s| s.whole.to_string(),
        "print the arm": |s| s.arm.to_string(),
        "debug print": |s| format!("{:?}", s.part),
        "clone": |s| keep(s, s.whole.clone()),
        "clone a path": |s| keep(s, s.part.clone()),
        "try_new": |s| (SerialChain::try_new(Chain::from_root(s.nodes[2].clone())), SerialChain::try_new(Chain::from_root(s.nodes[0].clone()))),
        "serial from_end": |s| SerialChain::from_end(&s.nodes[3]),
        "end_transform": |s| s.arm.end_transform(),
        "jacobian": |s| k::jacobian(&s.arm),
        "center_of_mass": |s| k::center_of_mass(&s.whole),
        "ik": |s| JacobianIkSolver::new(0.001, 0.001, 0.5, 2).solve_with_constraints(&s.arm, &target(s, 0.2), &xyz()),
        "ik, not converging": |s| JacobianIkSolver::new(1e-9, 0.001, 0.5, 1).solve_with_constraints(&s.arm, &target(s, 100.), &xyz()),
        "ik, with a function that uses the robot": |s| {
            let arm = s.same_arm.clone();
            let mut solver = JacobianIkSolver::new(0.001, 0.001, 0.5, 1);
            solver.set_nullspace_function(Box::new(move |q: &[f64]| {
                let now = arm.joint_positions();
                let e = arm.end_transform();
                arm.update_transforms();
                let limited = arm.iter_joints().filter(|j| j.limits.is_some()).count();
                let j = k::jacobian(&arm);
                q.iter().zip(now).map(|(a, b)| 0.1 * (a - b) + 0.001 * (limited as f64 + e.translation.x + j[0])).collect()
            }));
            let r = solver.solve_with_constraints(&s.arm, &target(s, 0.2), &xyz());
            r
        },
        "ik, too few joints": |s| JacobianIkSolver::new(0.001, 0.001, 0.5, 2).solve(&s.arm, &target(s, 0.2)),
    ]
}
/// those which hold a lock while they take another, or may do so in a changed k
fn nesting() -> Vec<usize> {
    let names = [
        "set_joint_position 2",
        "set_joint_position_clamped 3",
        "set_joint_position 1",
        "set_joint_position_clamped 5",
        "set_parent 5, 4",
        "remove_parent 2, 1",
        "remove_parent 3, 2",
        "set_mimic_parent 4, 2",
        "iter_descendants 0",
        "iter_ancestors 3",
        "iter_links",
        "set_joint_positions_clamped",
        "update_transforms",
        "update_velocities of the arm",
        "update_link_transforms",
        "print",
        "clone",
        "end_transform",
        "jacobian",
        "center_of_mass",
    ];
    names.iter().map(|n| ops().iter().position(|o| o.0 == *n).expect("an operation")).collect()
}

fn program(m: &Model, tasks: &[Vec<usize>], bound: usize, ctx: &mut Ctx) -> Result<(), String> {
    let all = ops();
    ctx.note(|| {
        let names: Vec<Vec<&str>> = tasks.iter().map(|t| t.iter().map(|i| all[*i].0).collect()).collect();
        format!("{:?} at once on\n{}", names, m.describe())
    });
    explore(bound, ctx, || -> Setup {
        let s = Rc::new(make(m));
        (
            tasks
                .iter()
                .map(|t| {
                    let (s, t): (_, Vec<_>) = (s.clone(), t.iter().map(|i| all[*i].1).collect());
                    Box::new(move || t.iter().for_each(|f| f(&s))) as Task
                })
                .collect(),
            Box::new(move || {
                // every lock is free again
                for n in s.nodes.iter() {
                    let _ = n.joint_position();
                }
                let _ = s.whole.update_transforms();
                Ok(())
            }),
        )
    })
}

pub fn check(t: Tier) -> Check {
    let thorough = t == Tier::Thorough;
    let mut s = vec![];
    let n = ops().len();
    for (name, m) in robots() {
        let bound = if thorough { 3 } else { 2 };
        let m1 = m.clone();
        s.push(space(
            &format!("pairs/{}", name),
            (n * n) as u64,
            &format!("every two of {} operations (also twice the same) at once, at most {} preemptions", n, bound),
            move |i, ctx| {
                let (a, b) = ((i / n as u64) as usize, (i % n as u64) as usize);
                if a > b {
                    return Ok(());
                }
                program(&m1, &[vec![a], vec![b]], bound, ctx)
            },
        ));
        let h = nesting();
        let k = h.len();
        let m2 = m.clone();
        let bound = if thorough { 2 } else { 1 };
        s.push(space(
            &format!("triples/{}", name),
            (k * k * k) as u64,
            &format!("every three of {} operations that take several locks at once, at most {} preemptions", k, bound),
            move |i, ctx| {
                let mut d = Dec(i);
                let (a, b, c) = (d.take(k), d.take(k), d.take(k));
                if a > b || b > c {
                    return Ok(());
                }
                program(&m2, &[vec![h[a]], vec![h[b]], vec![h[c]]], bound, ctx)
            },
        ));
    }
    Check {
        id: "C26",
        spaces: s,
        assumptions: vec![
            "sequential consistency; tasks interact through locks and atomics only, which safe Rust guarantees",
            "callers hold no guard (of a joint, link or list of children) while they call another operation",
            "mimic relations and parents form no cycles",
        ],
    }
}
