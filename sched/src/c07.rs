//! C07, with several threads: a joint never reports a pose or velocity from before its own last
//! change, however updates run beside the changes.
use crate::fw::*;
use crate::model::*;
use crate::real::*;
use crate::{ensure, explore, Setup};
use k::{Node, SerialChain};
use mcstd::mc::Task;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Change {
    Checked(f64),
    Clamped(f64),
    Raw(f64),
    Origin(usize),
}
const CHANGES: [Change; 5] = [
    Change::Checked(0.75),
    Change::Clamped(-0.5),
    Change::Raw(1.25),
    Change::Origin(3),
    Change::Checked(-1.0),
];
#[derive(Clone, Copy, Debug)]
enum Update {
    Transforms,
    Velocities,
    Links,
    Com,
    Jacobian,
}
const UPDATES: [Update; 5] = [Update::Transforms, Update::Velocities, Update::Links, Update::Com, Update::Jacobian];

fn apply(m: &mut Model, joint: usize, c: Change) {
    match c {
        Change::Checked(q) => {
            let w = m.checked(joint, q).expect("an admissible position");
            m.apply(&w)
        }
        Change::Clamped(q) => {
            let w = m.clamped(joint, q);
            m.apply(&w)
        }
        Change::Raw(q) => m.nodes[joint].q = q,
        Change::Origin(o) => m.nodes[joint].org = ORGS[o],
    }
}
fn change(n: &Node<f64>, c: Change) {
    match c {
        Change::Checked(q) => n.set_joint_position(q).unwrap(),
        Change::Clamped(q) => n.set_joint_position_clamped(q),
        Change::Raw(q) => n.set_joint_position_unchecked(q),
        Change::Origin(o) => n.set_origin(iso(&ORGS[o])),
    }
}
const TOL: f64 = 1e-9;
/// What the joint reports is nothing, or of now
fn current(m: &Model, i: usize, n: &Node<f64>) -> Result<(), String> {
    let tol = TOL * extent(m);
    if let Some(t) = n.world_transform() {
        let e = pose_err(&pose_of(&t), &m.world(i));
        ensure!(near(e, tol), "joint {} reports a pose from before its own last change (off by {:.3e})", i, e);
    }
    if let Some(v) = n.world_velocity() {
        let (a, b) = m.velocity(i);
        let e = norm(sub([v.translation.x, v.translation.y, v.translation.z], a))
            .max(norm(sub([v.rotation.x, v.rotation.y, v.rotation.z], b)));
        ensure!(near(e, tol), "joint {} reports a velocity from before its own last change (off by {:.3e})", i, e);
    }
    Ok(())
}

struct Program {
    m: Model,
    /// the joint that is commanded, and the one that is looked at (itself, or one that follows it)
    joint: usize,
    seen: usize,
    changes: Vec<Change>,
    updates: Vec<(Update, View)>,
    updated_before: bool,
}
fn run(p: &Program, bound: usize, ctx: &mut Ctx) -> Result<(), String> {
    ctx.note(|| {
        format!(
            "{}joint {} changed by {:?}, joint {} looked at, while {:?}{}",
            p.m.describe(),
            p.joint,
            p.changes,
            p.seen,
            p.updates,
            if p.updated_before { ", after an update" } else { "" }
        )
    });
    explore(bound, ctx, || -> Setup {
        let nodes = Rc::new(build::<f64>(&p.m));
        if p.updated_before {
            view(&nodes, View::Tree(0)).update_velocities();
        }
        let failure: Rc<RefCell<Option<String>>> = Rc::new(RefCell::new(None));
        let mut tasks: Vec<Task> = vec![];
        for (u, v) in &p.updates {
            let chain = view(&nodes, *v);
            let u = *u;
            let arm = match v {
                View::Part(e, r) => Some(SerialChain::from_end_to_root(&nodes[*e], &nodes[*r])),
                _ => None,
            };
            tasks.push(Box::new(move || match u {
                Update::Transforms => drop(chain.update_transforms()),
                Update::Velocities => drop(chain.update_velocities()),
                Update::Links => chain.update_link_transforms(),
                Update::Com => drop(k::center_of_mass(&chain)),
                Update::Jacobian => {
                    if let Some(a) = arm {
                        k::jacobian(&a);
                    }
                }
            }));
        }
        let (n, f, changes, mut m) = (nodes.clone(), failure.clone(), p.changes.clone(), p.m.clone());
        let (joint, seen) = (p.joint, p.seen);
        tasks.push(Box::new(move || {
            for c in changes {
                change(&n[joint], c);
                apply(&mut m, joint, c);
                if let Err(e) = current(&m, seen, &n[seen]) {
                    f.borrow_mut().get_or_insert(format!("{} after {:?}", e, c));
                }
            }
        }));
        let mut last = p.m.clone();
        for c in &p.changes {
            apply(&mut last, p.joint, *c);
        }
        (
            tasks,
            Box::new(move || {
                if let Some(e) = failure.borrow().clone() {
                    return Err(e);
                }
                current(&last, seen, &nodes[seen]).map_err(|e| format!("{}, in the end", e))
            }),
        )
    })
}
fn robot(shape: &[Option<usize>], kinds: &[u8], i: u64) -> Model {
    let mut m = tree(shape, kinds, (i % 2) as usize);
    for (j, n) in m.nodes.iter_mut().enumerate() {
        n.limits = None;
        n.qd = if n.kind.movable() { 0.4 + 0.3 * j as f64 } else { 0. };
        n.link = palette_link(j, 1 + j % 2);
    }
    m
}
fn updaters(m: &Model, seen: usize) -> Vec<(Update, View)> {
    let mut all = vec![];
    for v in views(m) {
        if !view_nodes(m, v).contains(&seen) {
            continue;
        }
        for u in UPDATES {
            if !matches!((u, v), (Update::Jacobian, View::Tree(_))) {
                all.push((u, v));
            }
        }
    }
    all
}

pub fn check(t: Tier) -> Check {
    let thorough = t == Tier::Thorough;
    let mut s = vec![];
    for n in 1..=if thorough { 4 } else { 3 } {
        let sh = shapes(n);
        s.push(space(
            &format!("beside-an-update/nodes={}", n),
            sh.len() as u64 * prod(&[n, 5, 2, 3, 2]),
            "every tree, one change to every joint (checked, clamped, unchecked, origin), looked at by the same task, beside one update (transforms, velocities, links, centre of mass, Jacobian) of every view with the joint; at most 3 preemptions (6 in the thorough tier)",
            move |i, ctx| {
                let mut d = Dec(i);
                let shape = d.pick(&sh).clone();
                let joint = d.take(n);
                let c = *d.pick(&CHANGES);
                let second = d.take(2);
                let kinds: Vec<u8> = match d.take(3) {
                    0 => (0..n).map(|i| 1 + (i % 2) as u8).collect(),
                    1 => vec![1; n],
                    _ => (0..n).map(|i| if i == joint { 1 + (i % 2) as u8 } else { (i % 3) as u8 }).collect(),
                };
                let updated_before = d.take(2) == 1;
                let m = robot(&shape, &kinds, i);
                let changes = if second == 0 { vec![c] } else { vec![c, CHANGES[(i % 5) as usize]] };
                for u in updaters(&m, joint) {
                    let p = Program { m: m.clone(), joint, seen: joint, changes: changes.clone(), updates: vec![u], updated_before };
                    run(&p, if thorough { 6 } else { 3 }, ctx)?;
                }
                Ok(())
            },
        ));
    }
    // mimics: the change comes from another joint's command
    let sh = shapes(3);
    s.push(space(
        "mimics-beside-an-update",
        sh.len() as u64 * prod(&[3, 3, 3, 2]),
        "every tree of 3 joints: a joint that mimics the commanded one, above, below or beside it, beside one update of every view with it; at most 4 preemptions (8 in the thorough tier)",
        move |i, ctx| {
            let mut d = Dec(i);
            let shape = d.pick(&sh).clone();
            let (joint, seen) = (d.take(3), d.take(3));
            if joint == seen {
                return Ok(());
            }
            let mut m = robot(&shape, &[1, 2, 1], i);
            m.nodes[seen].mimic = Some((joint, -0.5, 0.25));
            m.nodes[joint].q = 0.5;
            m.nodes[seen].q = 0.;
            // the joints that move must not carry the one that is looked at, for its pose to be known
            if m.path(seen)[..].contains(&joint) && joint != seen {
                return Ok(());
            }
            let c = [CHANGES[0], CHANGES[1], CHANGES[4]][d.take(3)];
            let updated_before = d.take(2) == 1;
            for u in updaters(&m, seen) {
                let p = Program { m: m.clone(), joint, seen, changes: vec![c], updates: vec![u], updated_before };
                run(&p, if thorough { 8 } else { 4 }, ctx)?;
            }
            Ok(())
        },
    ));
    // two updates at once
    let nmax = if thorough { 3 } else { 2 };
    for n in 1..=nmax {
        let sh = shapes(n);
        let bound = if thorough { 5 } else { 4 };
        s.push(space(
            &format!("beside-two-updates/nodes={}", n),
            sh.len() as u64 * prod(&[n, 4, 3, 3]),
            &format!("every tree, one change to every joint, beside two updates (transforms, velocities, links), at most {} preemptions", bound),
            move |i, ctx| {
                let mut d = Dec(i);
                let shape = d.pick(&sh).clone();
                let joint = d.take(n);
                let c = CHANGES[d.take(4)];
                let (a, b) = (d.take(3), d.take(3));
                if a > b {
                    return Ok(());
                }
                let kinds: Vec<u8> = (0..n).map(|i| 1 + (i % 2) as u8).collect();
                let m = robot(&shape, &kinds, i);
                let all = View::Tree(0);
                let part = View::Part(joint, if i % 2 == 0 { 0 } else { joint });
                let p = Program {
                    m,
                    joint,
                    seen: joint,
                    changes: vec![c],
                    updates: vec![(UPDATES[a], all), (UPDATES[b], part)],
                    updated_before: false,
                };
                run(&p, bound, ctx)
            },
        ));
    }
    Check {
        id: "C07",
        spaces: s,
        assumptions: vec![
            "several threads: sequential consistency; tasks interact through locks and atomics only, which safe Rust guarantees",
        ],
    }
}
