//! C24: concurrent joint commands are atomic.
use crate::fw::*;
use crate::model::*;
use crate::real::*;
use crate::{ensure, explore, seqs, shared, Setup, Shared};
use k::Node;
use mcstd::mc::{now, Task};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cmd {
    Set(usize, f64),
    Clamp(usize, f64),
    Raw(usize, f64),
    Read(usize),
    /// the origin is moved and turned; and where is it?
    Org(usize, f64),
    ReadOrg(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Resp {
    Done,
    Ok(bool),
    Value(f64),
}
#[derive(Clone, Debug)]
struct Event {
    task: usize,
    cmd: Cmd,
    call: u64,
    ret: u64,
    resp: Resp,
}
fn near_q(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-12
}
/// an origin that is moved and turned by `x`
fn moved(x: f64) -> Org {
    Org { t: [x, 0., 0.], axis: [0., 0., 1.], angle: 0.25 * x }
}
/// one number for both parts of an origin
fn origin_value(p: &Pose) -> f64 {
    p.p[0] + 64. * p.r[1][0]
}
fn apply_model(m: &mut Model, c: Cmd) -> Resp {
    match c {
        Cmd::Set(i, q) => {
            if m.nodes[i].mimic.is_some() {
                return Resp::Ok(true);
            }
            match m.checked(i, q) {
                Some(w) => {
                    m.apply(&w);
                    Resp::Ok(true)
                }
                None => Resp::Ok(false),
            }
        }
        Cmd::Clamp(i, q) => {
            if m.nodes[i].mimic.is_none() {
                let w = m.clamped(i, q);
                m.apply(&w);
            }
            Resp::Done
        }
        Cmd::Raw(i, q) => {
            m.nodes[i].q = q;
            Resp::Done
        }
        Cmd::Read(i) => Resp::Value(m.nodes[i].q),
        Cmd::Org(i, x) => {
            m.nodes[i].org = moved(x);
            Resp::Done
        }
        Cmd::ReadOrg(i) => Resp::Value(origin_value(&m.nodes[i].org.pose())),
    }
}
fn apply_real(n: &[Node<f64>], c: Cmd) -> Resp {
    match c {
        Cmd::Set(i, q) => Resp::Ok(n[i].set_joint_position(q).is_ok()),
        Cmd::Clamp(i, q) => {
            n[i].set_joint_position_clamped(q);
            Resp::Done
        }
        Cmd::Raw(i, q) => {
            n[i].set_joint_position_unchecked(q);
            Resp::Done
        }
        Cmd::Read(i) => Resp::Value(n[i].joint_position().unwrap_or(f64::NAN)),
        Cmd::Org(i, x) => {
            n[i].set_origin(iso(&moved(x)));
            Resp::Done
        }
        Cmd::ReadOrg(i) => Resp::Value(origin_value(&pose_of(&n[i].origin()))),
    }
}
fn same(a: &Resp, b: &Resp) -> bool {
    match (a, b) {
        (Resp::Value(x), Resp::Value(y)) => near_q(*x, *y),
        _ => a == b,
    }
}
/// Is there an order of the events, respecting the order in time, that the model allows, and that
/// ends with the positions `last` of the joints `of`?
fn linearizable(m: &Model, ev: &[Event], left: u32, last: &[(f64, f64)], of: &[usize]) -> bool {
    if left == 0 {
        return of.iter().all(|i| near_q(m.nodes[*i].q, last[*i].0) && near_q(origin_value(&m.nodes[*i].org.pose()), last[*i].1));
    }
    for i in 0..ev.len() {
        if left & (1 << i) == 0 {
            continue;
        }
        // nobody else must have returned before this one was called
        if (0..ev.len()).any(|j| left & (1 << j) != 0 && ev[j].ret < ev[i].call) {
            continue;
        }
        let mut n = m.clone();
        if same(&apply_model(&mut n, ev[i].cmd), &ev[i].resp) && linearizable(&n, ev, left & !(1 << i), last, of) {
            return true;
        }
    }
    false
}
impl Cmd {
    fn joint(&self) -> usize {
        match self {
            Cmd::Set(i, _) | Cmd::Clamp(i, _) | Cmd::Raw(i, _) | Cmd::Read(i) | Cmd::Org(i, _) | Cmd::ReadOrg(i) => *i,
        }
    }
}
fn drivers(m: &Model, mut i: usize) -> Vec<usize> {
    let mut v = vec![i];
    while let Some((d, _, _)) = m.nodes[i].mimic {
        v.push(d);
        i = d;
    }
    v
}
/// A command moves the followers of a joint one after another, so that followers of the same driver
/// may be seen apart while it runs. A follower never appears apart from its drivers, though, and in
/// the end all come from the same command.
fn explained(m: &Model, ev: &[Event], last: &[(f64, f64)]) -> Result<(), String> {
    let all: Vec<usize> = (0..m.nodes.len()).collect();
    let story = |ev: &[Event]| {
        ev.iter().map(|e| format!("task {}: {:?} -> {:?}", e.task, e.cmd, e.resp)).collect::<Vec<_>>()
    };
    let try_on = |part: &[usize], keep: &dyn Fn(&Cmd) -> bool| -> Result<(), String> {
        let e: Vec<Event> = ev.iter().filter(|e| keep(&e.cmd)).cloned().collect();
        ensure!(
            linearizable(m, &e, (1 << e.len()) - 1, last, part),
            "no order of the commands explains {:?} with the final positions {:?} (joints {:?} of {:?})",
            story(&e),
            last,
            part,
            story(ev)
        );
        Ok(())
    };
    if all.iter().all(|i| m.followers(*i).len() <= 1) {
        return try_on(&all, &|_| true);
    }
    for end in all.iter().filter(|i| m.followers(**i).is_empty()) {
        // this joint and all its drivers
        let part = drivers(m, *end);
        try_on(&part, &|c| part.contains(&c.joint()))?;
    }
    try_on(&all, &|c| !matches!(c, Cmd::Read(i) if m.nodes[*i].mimic.is_some()))
}

fn rot_joint(i: usize, parent: Option<usize>, limits: Option<(f64, f64)>, mimic: Option<(usize, f64, f64)>) -> MNode {
    MNode {
        parent,
        limits,
        mimic,
        q: 0.,
        qd: 0.,
        ..palette_node(i, 1 + (i % 2) as u8, 0)
    }
}
/// the robots, and the commands sent to them
fn robots() -> Vec<(&'static str, Model, Vec<Cmd>)> {
    use Cmd::*;
    let r = |nodes: Vec<MNode>| Model { nodes };
    let lim = Some((-1.0, 1.0));
    vec![
        (
            "one joint with limits",
            r(vec![rot_joint(0, None, lim, None)]),
            vec![Set(0, 0.5), Set(0, -0.7), Set(0, 1.5), Clamp(0, 2.0), Clamp(0, -0.3), Raw(0, 0.25), Read(0), Org(0, 3.0), ReadOrg(0)],
        ),
        (
            "a follower with limits below its driver",
            r(vec![
                rot_joint(0, None, lim, None),
                rot_joint(1, Some(0), Some((-0.9, 1.3)), Some((0, 2.0, 0.1))),
            ]),
            vec![Set(0, 0.5), Set(0, -0.25), Set(0, 0.75), Clamp(0, 2.0), Clamp(0, -0.75), Raw(1, 0.25), Set(1, 0.8), Clamp(1, 0.7), Read(0), Read(1), Org(0, 3.0), Org(1, 2.0), ReadOrg(1)],
        ),
        (
            "a follower above its driver",
            r(vec![
                rot_joint(0, None, lim, Some((1, -1.5, 0.2))),
                rot_joint(1, Some(0), None, None),
            ]),
            vec![Set(1, 0.5), Set(1, -0.25), Set(1, 1.25), Clamp(1, 2.0), Clamp(1, -0.375), Set(0, 0.8), Read(0), Read(1), Org(0, 3.0)],
        ),
        (
            "two followers",
            r(vec![
                rot_joint(0, None, None, None),
                rot_joint(1, Some(0), lim, Some((0, 1.0, 0.25))),
                rot_joint(2, Some(0), Some((-2., 0.5)), Some((0, -0.5, 0.0))),
            ]),
            vec![Set(0, 0.5), Set(0, -0.5), Set(0, -1.125), Clamp(0, 2.0), Clamp(0, -2.0), Raw(2, 0.125), Read(0), Read(1), Read(2)],
        ),
        (
            "a follower of a follower",
            r(vec![
                rot_joint(0, None, lim, None),
                rot_joint(1, Some(0), None, Some((0, 2.0, 0.125))),
                rot_joint(2, Some(1), lim, Some((1, -1.0, 0.0))),
            ]),
            vec![Set(0, 0.375), Set(0, -0.25), Set(0, 0.75), Clamp(0, 2.0), Clamp(0, -1.0), Set(1, 0.3), Read(0), Read(1), Read(2)],
        ),
        (
            "two independent drivers, one of which also moves the joint between them",
            r(vec![
                rot_joint(0, None, lim, None),
                rot_joint(1, Some(0), lim, Some((2, 0.5, 0.0))),
                rot_joint(2, Some(1), lim, None),
            ]),
            vec![Set(0, 0.5), Clamp(0, -3.0), Set(2, 0.5), Set(2, -0.25), Set(2, 1.5), Clamp(2, 3.0), Read(0), Read(1), Read(2)],
        ),
    ]
}

fn program(m: &Model, programs: &[Vec<Cmd>], bound: usize, ctx: &mut Ctx) -> Result<(), String> {
    ctx.note(|| format!("{}{:#?}", m.describe(), programs));
    explore(bound, ctx, || -> Setup {
        let nodes = Rc::new(build::<f64>(m));
        let events: Shared<Event> = shared();
        let tasks: Vec<Task> = programs
            .iter()
            .enumerate()
            .map(|(t, p)| {
                let (nodes, events, p) = (nodes.clone(), events.clone(), p.clone());
                Box::new(move || {
                    for cmd in p {
                        let call = now();
                        let resp = apply_real(&nodes, cmd);
                        events.borrow_mut().push(Event { task: t, cmd, call, ret: now(), resp });
                    }
                }) as Task
            })
            .collect();
        let m = m.clone();
        (
            tasks,
            Box::new(move || {
                let last: Vec<(f64, f64)> = nodes.iter().map(|n| (n.joint_position().unwrap(), origin_value(&pose_of(&n.origin())))).collect();
                let ev = events.borrow();
                explained(&m, &ev, &last)
            }),
        )
    })
}

// ---------------------------------------------------------------- updates

#[derive(Clone, Copy, Debug)]
enum Query {
    Update(View),
    Com(View),
}
/// What a query gives in a configuration
fn answer(m: &Model, chain: &[usize], q: Query) -> Vec<Pose> {
    match q {
        Query::Update(_) => chain.iter().map(|i| m.world(*i)).collect(),
        Query::Com(_) => vec![Pose { r: I3, p: m.com(chain) }],
    }
}
fn update_program(m: &Model, queries: &[Query], joint: usize, how: usize, bound: usize, ctx: &mut Ctx) -> Result<(), String> {
    ctx.note(|| format!("{}{:?}, command {} to joint {}", m.describe(), queries, how, joint));
    let q1 = m.nodes[joint].q + 0.8;
    let mut after = m.clone();
    after.nodes[joint].q = q1;
    let after = Rc::new(after);
    let before = Rc::new(m.clone());
    let tol = TOL_UPDATE * extent(&after);
    explore(bound, ctx, || -> Setup {
        let nodes = Rc::new(build::<f64>(m));
        let results: Shared<(usize, Vec<usize>, Vec<Pose>)> = shared();
        let mut tasks: Vec<Task> = vec![];
        for (k, q) in queries.iter().enumerate() {
            let v = match q {
                Query::Update(v) | Query::Com(v) => *v,
            };
            let chain = view(&nodes, v);
            let ids = indices(&nodes, &chain);
            let (q, results) = (*q, results.clone());
            tasks.push(Box::new(move || {
                let r = match q {
                    Query::Update(_) => chain.update_transforms().iter().map(pose_of).collect(),
                    Query::Com(_) => {
                        let c = k::center_of_mass(&chain);
                        vec![Pose { r: I3, p: [c.x, c.y, c.z] }]
                    }
                };
                results.borrow_mut().push((k, ids, r));
            }));
        }
        let n = nodes.clone();
        tasks.push(Box::new(move || match how {
            0 => n[joint].set_joint_position(q1).unwrap(),
            1 => n[joint].set_joint_position_clamped(q1),
            _ => n[joint].set_joint_position_unchecked(q1),
        }));
        let queries = queries.to_vec();
        let (before, after) = (before.clone(), after.clone());
        (
            tasks,
            Box::new(move || {
                let results = results.borrow();
                ensure!(results.len() == queries.len(), "a query did not return");
                let mut all_before = true;
                for (k, ids, got) in results.iter() {
                    let fits = |m: &Model| {
                        let want = answer(m, ids, queries[*k]);
                        want.len() == got.len() && want.iter().zip(got).all(|(a, b)| near(pose_err(a, b), tol))
                    };
                    let (b, a) = (fits(&before), fits(&after));
                    ensure!(
                        a || b,
                        "query {} gives {:?}, which is neither the answer before nor after the command",
                        k,
                        got
                    );
                    all_before &= b;
                }
                // no pose older than the command is left behind on the commanded joint
                if let Some(t) = nodes[joint].world_transform() {
                    ensure!(
                        near(pose_err(&pose_of(&t), &after.world(joint)), tol),
                        "the joint reports a pose from before its command ({})",
                        if all_before { "all queries came first" } else { "mixed" }
                    );
                }
                ensure!(nodes[joint].joint_position() == Some(q1), "the command is lost");
                Ok(())
            }),
        )
    })
}
const TOL_UPDATE: f64 = 1e-9;

pub fn check(t: Tier) -> Check {
    let thorough = t == Tier::Thorough;
    let mut s = vec![];
    for (name, m, alphabet) in robots() {
        let n = alphabet.len();
        // two tasks with up to two commands each
        let sq = seqs(n, 2);
        let pairs = (sq.len() * (sq.len() + 1) / 2) as u64;
        let (m1, a1) = (m.clone(), alphabet.clone());
        let bound = if thorough { 6 } else { 3 };
        s.push(space(
            &format!("pairs/{}", name),
            pairs,
            &format!("two tasks, up to two commands or reads each of {}, every interleaving with at most {} preemptions", n, bound),
            move |i, ctx| {
                // i-th unordered pair
                let b = (((8 * i + 1) as f64).sqrt() as u64 - 1) / 2;
                let b = (b.saturating_sub(1)..).find(|b| (b + 1) * (b + 2) / 2 > i).unwrap();
                let a = i - b * (b + 1) / 2;
                let p: Vec<Vec<Cmd>> = [a, b].iter().map(|x| sq[*x as usize].iter().map(|c| a1[*c]).collect()).collect();
                program(&m1, &p, bound, ctx)
            },
        ));
        let (m2, a2) = (m.clone(), alphabet.clone());
        let bound = if thorough { 8 } else { 5 };
        s.push(space(
            &format!("triples/{}", name),
            (n * n * n) as u64,
            &format!("three tasks with one command or read each, at most {} preemptions", bound),
            move |i, ctx| {
                let mut d = Dec(i);
                let p: Vec<Vec<Cmd>> = (0..3).map(|_| vec![*d.pick(&a2)]).collect();
                if !(0..2).all(|k| a2.iter().position(|c| *c == p[k][0]) <= a2.iter().position(|c| *c == p[k + 1][0])) {
                    return Ok(()); // the same up to the numbering of the tasks
                }
                program(&m2, &p, bound, ctx)
            },
        ));
        if thorough {
            let sq = seqs(n, 2);
            let pairs2 = (sq.len() * n * n) as u64;
            let (m3, a3) = (m.clone(), alphabet.clone());
            s.push(space(
                &format!("pairs-and-one/{}", name),
                pairs2,
                "three tasks, one with up to two commands, at most 4 preemptions",
                move |i, ctx| {
                    let mut d = Dec(i);
                    let x = d.pick(&sq).clone();
                    let (b, c) = (d.take(n), d.take(n));
                    if b > c {
                        return Ok(());
                    }
                    let p: Vec<Vec<Cmd>> = vec![x.iter().map(|c| a3[*c]).collect(), vec![a3[b]], vec![a3[c]]];
                    program(&m3, &p, 4, ctx)
                },
            ));
        }
    }
    // updates and centre of mass with one command
    let nmax = if thorough { 6 } else { 5 };
    for n in 1..=nmax {
        let sh = shapes(n);
        let len = sh.len() as u64 * prod(&[n, 3, 2, 3]);
        s.push(space(
            &format!("update/nodes={}", n),
            len,
            "every tree: transform update or centre of mass of every view, with one command (checked, clamped, unchecked) to every joint; every interleaving",
            move |i, ctx| {
                let mut d = Dec(i);
                let shape = d.pick(&sh).clone();
                let joint = d.take(n);
                let how = d.take(3);
                let com = d.take(2) == 1;
                let kinds: Vec<u8> = match d.take(3) {
                    0 => (0..n).map(|i| 1 + (i % 2) as u8).collect(),
                    1 => vec![1; n],
                    _ => (0..n).map(|i| if i == joint { 1 } else { (i % 3) as u8 }).collect(),
                };
                let mut m = tree(&shape, &kinds, (i % 2) as usize);
                for j in 0..n {
                    m.nodes[j].link = palette_link(j, [1, 2, 3, 0][(j + i as usize) % 4]);
                }
                m.nodes[n - 1].link = palette_link(n - 1, 1);
                for v in views(&m) {
                    let q = if com {
                        let ids = view_nodes(&m, v);
                        if ids.iter().all(|i| m.nodes[*i].link.as_ref().map_or(true, |l| l.mass == 0.)) {
                            continue;
                        }
                        Query::Com(v)
                    } else {
                        Query::Update(v)
                    };
                    update_program(&m, &[q], joint, how, 100, ctx)?;
                }
                Ok(())
            },
        ));
    }
    let sh = shapes(3);
    let bound = if thorough { 6 } else { 4 };
    s.push(space(
        "two-queries/nodes=3",
        sh.len() as u64 * prod(&[3, 3, 3]),
        &format!("two updates or centres of mass and one command at once, at most {} preemptions", bound),
        move |i, ctx| {
            let mut d = Dec(i);
            let shape = d.pick(&sh).clone();
            let joint = d.take(3);
            let how = d.take(3);
            let which = d.take(3);
            let mut m = tree(&shape, &[1, 2, 1], 0);
            for j in 0..3 {
                m.nodes[j].link = palette_link(j, 1 + j % 2);
            }
            let all = View::Tree(0);
            let end = View::Part(2, if i % 2 == 0 { 2 } else { 0 });
            let q = match which {
                0 => [Query::Update(all), Query::Update(all)],
                1 => [Query::Update(all), Query::Com(all)],
                _ => [Query::Com(all), Query::Update(end)],
            };
            update_program(&m, &q, joint, how, bound, ctx)
        },
    ));
    Check {
        id: "C24",
        spaces: s,
        assumptions: vec![
            "sequential consistency; tasks interact through locks and atomics only, which safe Rust guarantees",
            "reference counts (Arc, Weak) are not scheduling points",
        ],
    }
}
