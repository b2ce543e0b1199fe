//! C25: concurrent construction loses nothing.
use crate::fw::*;
use crate::real::*;
use crate::{ensure, explore, seqs, shared, Setup, Shared};
use k::joint::Mimic;
use k::{Chain, Node};
use mcstd::mc::{now, Task};
use std::rc::Rc;

const R: usize = 0;
const Q: usize = 1;
const P: usize = 2;
const A: usize = 3;
const B: usize = 4;
const C: usize = 5;
const D: usize = 6;
const N: usize = 7;
const NAMES: [&str; N] = ["r", "q", "p", "a", "b", "c", "d"];

/// A node is attached, and mimics, only nodes before it: no cycles.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Attach(usize, usize),
    Detach(usize, usize),
    Mimic(usize, usize, f64),
    /// version 0 is no link
    Link(usize, u32),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Reader {
    Descendants(usize),
    FromRoot(usize),
    Children(usize),
    Ancestors(usize),
    FromEnd(usize),
    Parent(usize),
    Links,
    Link(usize),
    MimicParent(usize),
    /// reads and computes, and must leave the relations and links alone
    Work(u32),
}
use Op::*;

/// what the calls do one after another
#[derive(Clone, Debug, PartialEq)]
struct World {
    parent: [Option<usize>; N],
    children: [Vec<usize>; N],
    mimic: [Option<(usize, f64)>; N],
    link: [u32; N],
}
impl World {
    fn start() -> World {
        let mut w = World {
            parent: [None; N],
            children: Default::default(),
            mimic: [None; N],
            link: [0, 0, 1, 1, 0, 1, 0],
        };
        for (x, p) in [(Q, R), (P, R), (A, P), (B, P), (C, Q)] {
            w.apply(Attach(x, p));
        }
        // a follows q from the start, b nothing
        w.mimic[A] = Some((Q, 3.0));
        w
    }
    fn apply(&mut self, o: Op) {
        match o {
            Attach(x, p) => {
                if let Some(old) = self.parent[x] {
                    self.children[old].retain(|c| *c != x);
                }
                self.parent[x] = Some(p);
                self.children[p].push(x);
            }
            Detach(x, p) => {
                if self.parent[x] == Some(p) {
                    self.parent[x] = None;
                    self.children[p].retain(|c| *c != x);
                }
            }
            Mimic(x, d, m) => self.mimic[x] = Some((d, m)),
            Link(x, v) => self.link[x] = v,
        }
    }
    fn below(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        let mut k = 0;
        while k < v.len() {
            v.extend(self.children[v[k]].iter());
            k += 1;
        }
        v
    }
    fn path(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        while let Some(p) = self.parent[*v.last().unwrap()] {
            v.push(p);
        }
        v
    }
}
/// all results of running the sequences one call at a time
fn outcomes(w: &World, left: &[&[Op]], out: &mut Vec<World>) {
    if left.iter().all(|l| l.is_empty()) {
        if !out.contains(w) {
            out.push(w.clone());
        }
        return;
    }
    for t in 0..left.len() {
        if let Some((o, rest)) = left[t].split_first() {
            let mut w = w.clone();
            w.apply(*o);
            let mut l = left.to_vec();
            l[t] = rest;
            outcomes(&w, &l, out);
        }
    }
}

fn link_of(node: usize, version: u32) -> Option<k::link::Link<f64>> {
    if version == 0 {
        return None;
    }
    Some(k::link::LinkBuilder::new().name(&format!("{} {}", node, version)).finalize())
}
fn version(name: &str) -> (usize, u32) {
    let (a, b) = name.split_once(' ').expect("a link of this program");
    (a.parse().unwrap(), b.parse().unwrap())
}
fn make() -> Robot<f64> {
    let w = World::start();
    let nodes: Vec<Node<f64>> = (0..N)
        .map(|i| {
            Node::new(k::Joint::new(
                NAMES[i],
                k::JointType::Linear {
                    axis: k::Vector3::x_axis(),
                },
            ))
        })
        .collect();
    for (x, p) in [(Q, R), (P, R), (A, P), (B, P), (C, Q)] {
        nodes[x].set_parent(&nodes[p]);
    }
    for i in 0..N {
        if let Some((d, m)) = w.mimic[i] {
            nodes[i].set_mimic_parent(&nodes[d], Mimic::new(m, 0.));
        }
        nodes[i].set_link(link_of(i, w.link[i]));
    }
    Robot(nodes)
}
fn apply_real(n: &[Node<f64>], o: Op) {
    match o {
        Attach(x, p) => n[x].set_parent(&n[p]),
        Detach(x, p) => n[x].remove_parent(&n[p]),
        Mimic(x, d, m) => n[x].set_mimic_parent(&n[d], Mimic::new(m, 0.)),
        Link(x, v) => n[x].set_link(link_of(x, v)),
    }
}

/// The relations, as everybody sees them
fn read_world(n: &[Node<f64>]) -> World {
    let id = |x: &Node<f64>| index_of(n, x);
    let mut w = World {
        parent: [None; N],
        children: Default::default(),
        mimic: [None; N],
        link: [0; N],
    };
    for i in 0..N {
        w.parent[i] = n[i].parent().map(|p| id(&p));
        let c = n[i].children().clone();
        w.children[i] = c.iter().map(id).collect();
        w.mimic[i] = n[i].mimic_parent().map(|p| (id(&p), 0.));
        let name = n[i].link().as_ref().map(|l| l.name.clone());
        w.link[i] = name.map_or(0, |l| version(&l).1);
    }
    w
}
fn check_final(n: &[Node<f64>], allowed: &[World]) -> Result<(), String> {
    let mut got = read_world(n);
    // the multipliers show when the drivers move
    for i in 0..N {
        if let Some((d, _)) = got.mimic[i] {
            let m = allowed[0].mimic[i].map_or(0., |m| m.1);
            got.mimic[i] = Some((d, m));
        }
    }
    ensure!(
        allowed.contains(&got),
        "in the end the robot is\n  {:?}\nbut the calls, one after another, give one of\n  {:?}",
        got,
        allowed
    );
    // iteration, ancestors and roots agree with it
    for i in 0..N {
        let mut d: Vec<usize> = n[i].iter_descendants().map(|x| index_of(n, &x)).collect();
        d.sort();
        let mut want = got.below(i);
        want.sort();
        ensure!(d == want, "the descendants of {} are {:?} instead of {:?}", NAMES[i], d, want);
        let a: Vec<usize> = n[i].iter_ancestors().map(|x| index_of(n, &x)).collect();
        ensure!(a == got.path(i), "the ancestors of {} are {:?} instead of {:?}", NAMES[i], a, got.path(i));
        ensure!(n[i].is_root() == got.parent[i].is_none(), "{}.is_root() is {}", NAMES[i], n[i].is_root());
        ensure!(n[i].is_end() == got.children[i].is_empty(), "{}.is_end() is {}", NAMES[i], n[i].is_end());
    }
    // every driver moves its followers, and nothing else
    let mut q = [0.0f64; N];
    for i in 0..N {
        q[i] = n[i].joint_position().unwrap();
    }
    for d in 0..N {
        let to = 0.25 + d as f64;
        n[d].set_joint_position(to).map_err(|e| format!("command to {}: {}", NAMES[d], e))?;
        if got.mimic[d].is_none() {
            q[d] = to;
            // followers come after their drivers
            let mut moved = [false; N];
            moved[d] = true;
            for i in 0..N {
                if let Some((x, m)) = got.mimic[i] {
                    if moved[x] {
                        moved[i] = true;
                        q[i] = m * q[x];
                    }
                }
            }
        }
        for i in 0..N {
            let p = n[i].joint_position().unwrap();
            ensure!(
                (p - q[i]).abs() < 1e-12,
                "after a command to {} joint {} is at {} instead of {} (mimic relations {:?})",
                NAMES[d],
                NAMES[i],
                p,
                q[i],
                got.mimic
            );
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum Seen {
    Nodes(Vec<usize>),
    One(Option<usize>),
    /// for every node its link
    Links(Vec<(usize, u32)>),
    Nothing,
}
#[derive(Clone, Debug)]
struct Obs {
    reader: Reader,
    call: u64,
    ret: u64,
    seen: Seen,
}
#[derive(Clone, Debug)]
struct Done {
    op: Op,
    call: u64,
    ret: u64,
}
fn read(n: &[Node<f64>], chain: &Chain<f64>, r: Reader) -> Seen {
    let ids = |v: Vec<Node<f64>>| Seen::Nodes(v.iter().map(|x| index_of(n, x)).collect());
    match r {
        Reader::Descendants(i) => ids(n[i].iter_descendants().collect()),
        Reader::FromRoot(i) => ids(Chain::from_root(n[i].clone()).iter().cloned().collect()),
        Reader::Children(i) => {
            let c = n[i].children().clone();
            ids(c)
        }
        Reader::Ancestors(i) => ids(n[i].iter_ancestors().collect()),
        Reader::FromEnd(i) => {
            let mut v: Vec<Node<f64>> = Chain::from_end(&n[i]).iter().cloned().collect();
            v.reverse();
            ids(v)
        }
        Reader::Parent(i) => Seen::One(n[i].parent().map(|p| index_of(n, &p))),
        Reader::MimicParent(i) => Seen::One(n[i].mimic_parent().map(|p| index_of(n, &p))),
        Reader::Links => Seen::Links(chain.iter_links().map(|l| version(&l.name)).collect()),
        Reader::Link(i) => {
            let name = n[i].link().as_ref().map(|l| l.name.clone());
            Seen::Links(name.iter().map(|l| version(l)).collect())
        }
        Reader::Work(k) => {
            match k {
                0 => drop(chain.update_link_transforms()),
                1 => drop(chain.update_transforms()),
                2 => drop(k::center_of_mass(chain)),
                3 => drop(chain.update_velocities()),
                4 => drop(chain.to_string()),
                _ => drop(chain.clone()),
            }
            Seen::Nothing
        }
    }
}
/// Could a register have had this value at some time from `call` to `ret`?
/// `writes` are the calls which wrote it, with the values written
fn register<X: PartialEq + Copy>(start: X, writes: &[(X, u64, u64)], value: X, call: u64, ret: u64) -> bool {
    // the start value, unless a write was over before the call
    if value == start && !writes.iter().any(|w| w.2 < call) {
        return true;
    }
    writes.iter().any(|w| {
        w.0 == value
            && w.1 < ret
            // not overwritten, by a call after it, before the read began
            && !writes.iter().any(|o| o.1 > w.2 && o.2 < call)
    })
}
fn check_obs(o: &Obs, done: &[Done]) -> Result<(), String> {
    let start = World::start();
    let touched = |x: usize| done.iter().any(|d| matches!(d.op, Attach(y, _) | Detach(y, _) if x == y));
    let still = |x: usize| !start.path(x).iter().any(|y| touched(*y));
    let tell = || format!("{:?} during {:?}", o, done);
    match (&o.reader, &o.seen) {
        (Reader::Descendants(i), Seen::Nodes(v)) | (Reader::FromRoot(i), Seen::Nodes(v)) => {
            ensure!(v[0] == *i, "{}: the first node is another", tell());
            for x in start.below(*i) {
                // below i all the time: neither it nor a node between has been touched
                let path = start.path(x);
                let between = &path[..path.iter().position(|y| y == i).unwrap()];
                if !between.iter().any(|y| touched(*y)) {
                    let c = v.iter().filter(|y| **y == x).count();
                    ensure!(c == 1, "{}: {} is seen {} times", tell(), NAMES[x], c);
                }
            }
            for x in v {
                let here = start.below(*i).contains(x) || touched(*x) || !still(*x);
                ensure!(here, "{}: {} has never been there", tell(), NAMES[*x]);
            }
        }
        (Reader::Children(i), Seen::Nodes(v)) => {
            for x in 0..N {
                let c = v.iter().filter(|y| **y == x).count();
                if !touched(x) {
                    let want = (start.parent[x] == Some(*i)) as usize;
                    ensure!(c == want, "{}: {} is seen {} times", tell(), NAMES[x], c);
                } else {
                    let ever = start.parent[x] == Some(*i) || done.iter().any(|d| d.op == Attach(x, *i));
                    ensure!(c <= ever as usize, "{}: {} is seen {} times", tell(), NAMES[x], c);
                }
            }
        }
        (Reader::Ancestors(i), Seen::Nodes(v)) | (Reader::FromEnd(i), Seen::Nodes(v)) => {
            // every step goes to a parent that the node had at that time
            ensure!(v[0] == *i, "{}: the first node is another", tell());
            for k in 0..v.len() {
                let p = v.get(k + 1).copied();
                ensure!(parent_possible(v[k], p, o, done), "{}: {:?} was not the parent of {}", tell(), p, NAMES[v[k]]);
            }
        }
        (Reader::Parent(i), Seen::One(p)) => {
            ensure!(parent_possible(*i, *p, o, done), "{}: not the parent at that time", tell());
        }
        (Reader::MimicParent(i), Seen::One(p)) => {
            let w: Vec<(Option<usize>, u64, u64)> = done
                .iter()
                .filter_map(|d| match d.op {
                    Mimic(x, y, _) if x == *i => Some((Some(y), d.call, d.ret)),
                    _ => None,
                })
                .collect();
            let s = start.mimic[*i].map(|m| m.0);
            ensure!(register(s, &w, *p, o.call, o.ret), "{}: not the driver at that time", tell());
        }
        (_, Seen::Nothing) => {}
        (r, Seen::Links(v)) => {
            let of: Vec<usize> = match r {
                Reader::Link(i) => vec![*i],
                _ => (0..D).collect(),
            };
            for (x, _) in v {
                ensure!(of.contains(x), "{}: a link of another node", tell());
            }
            for x in of {
                let mine: Vec<u32> = v.iter().filter(|l| l.0 == x).map(|l| l.1).collect();
                ensure!(mine.len() <= 1, "{}: several links of {}", tell(), NAMES[x]);
                let got = mine.first().copied().unwrap_or(0);
                let w: Vec<(u32, u64, u64)> = done
                    .iter()
                    .filter_map(|d| match d.op {
                        Link(y, n) if x == y => Some((n, d.call, d.ret)),
                        _ => None,
                    })
                    .collect();
                ensure!(
                    register(start.link[x], &w, got, o.call, o.ret),
                    "{}: not the link of {} at that time",
                    tell(),
                    NAMES[x]
                );
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}
fn parent_possible(x: usize, p: Option<usize>, o: &Obs, done: &[Done]) -> bool {
    // only one task moves a node, in order
    let start = World::start().parent[x];
    let mut now = start;
    let mut w: Vec<(Option<usize>, u64, u64)> = vec![];
    for d in done {
        match d.op {
            Attach(y, t) if x == y => {
                now = Some(t);
                w.push((now, d.call, d.ret));
            }
            Detach(y, f) if x == y && now == Some(f) => {
                now = None;
                w.push((now, d.call, d.ret));
            }
            _ => {}
        }
    }
    register(start, &w, p, o.call, o.ret)
}

/// each node has one task which attaches it, and one which makes it mimic
fn disjoint(programs: &[Vec<Op>]) -> bool {
    let owns = |o: &Op| match o {
        Attach(x, _) | Detach(x, _) => Some((0, *x)),
        Mimic(x, _, _) => Some((1, *x)),
        Link(..) => None,
    };
    for (i, a) in programs.iter().enumerate() {
        for b in &programs[..i] {
            if a.iter().any(|x| owns(x).is_some() && b.iter().any(|y| owns(x) == owns(y))) {
                return false;
            }
        }
    }
    true
}

fn program(programs: &[Vec<Op>], readers: &[Reader], bound: usize, ctx: &mut Ctx) -> Result<(), String> {
    ctx.note(|| format!("{:?} {:?}", programs, readers));
    let mut allowed = vec![];
    outcomes(&World::start(), &programs.iter().map(|p| &p[..]).collect::<Vec<_>>(), &mut allowed);
    ctx.count(&format!("{} possible results", allowed.len()));
    let allowed = Rc::new(allowed);
    explore(bound, ctx, || -> Setup {
        let nodes = Rc::new(make());
        let done: Shared<Done> = shared();
        let seen: Shared<Obs> = shared();
        let mut tasks: Vec<Task> = vec![];
        for p in programs {
            let (nodes, p, done) = (nodes.clone(), p.clone(), done.clone());
            tasks.push(Box::new(move || {
                for op in p {
                    let call = now();
                    // known at once, since readers may see its effect
                    let k = {
                        let mut d = done.borrow_mut();
                        d.push(Done { op, call, ret: u64::MAX });
                        d.len() - 1
                    };
                    apply_real(&nodes, op);
                    done.borrow_mut()[k].ret = now();
                }
            }));
        }
        for r in readers {
            let (nodes, r, seen) = (nodes.clone(), *r, seen.clone());
            let chain = Chain::from_root(nodes[R].clone());
            tasks.push(Box::new(move || {
                let call = now();
                let s = read(&nodes, &chain, r);
                seen.borrow_mut().push(Obs { reader: r, call, ret: now(), seen: s });
            }));
        }
        let allowed = allowed.clone();
        (
            tasks,
            Box::new(move || {
                for o in seen.borrow().iter() {
                    check_obs(o, &done.borrow())?;
                }
                check_final(&nodes, &allowed)
            }),
        )
    })
}

fn alphabet() -> Vec<Op> {
    vec![
        Attach(P, Q),
        Attach(A, R),
        Attach(A, Q),
        Attach(A, P),
        Attach(B, Q),
        Attach(B, A),
        Attach(C, P),
        Attach(C, A),
        Attach(D, P),
        Attach(D, A),
        Detach(A, P),
        Detach(A, Q),
        Detach(B, P),
        Detach(C, Q),
        Detach(P, R),
        Mimic(A, P, 2.0),
        Mimic(A, Q, -1.0),
        Mimic(B, P, 0.5),
        Mimic(B, A, 1.5),
        Mimic(C, P, -2.0),
        Mimic(D, A, 4.0),
        Link(P, 2),
        Link(P, 3),
        Link(P, 0),
        Link(A, 0),
        Link(B, 2),
    ]
}
fn readers() -> Vec<Reader> {
    use Reader::*;
    vec![
        Descendants(R),
        FromRoot(R),
        Descendants(P),
        Children(P),
        Children(Q),
        Ancestors(A),
        Ancestors(C),
        FromEnd(B),
        Parent(A),
        Links,
        Link(P),
        MimicParent(A),
    ]
}

pub fn check(t: Tier) -> Check {
    let thorough = t == Tier::Thorough;
    let mut s = vec![];
    let n = alphabet().len();
    let sq = seqs(n, 2);
    let ops = |s: &Vec<usize>| -> Vec<Op> { s.iter().map(|i| alphabet()[*i]).collect() };
    let bound = if thorough { 4 } else { 3 };
    {
        let sq = sq.clone();
        s.push(space(
            "two and one",
            (sq.len() * n) as u64,
            &format!(
                "one task with up to two calls, one with one, of {} calls that attach, detach, register mimics and set links; at most {} preemptions",
                n, bound
            ),
            move |i, ctx| {
                let mut d = Dec(i);
                let a = ops(d.pick(&sq));
                let b = vec![*d.pick(&alphabet())];
                let p = vec![a, b];
                if !disjoint(&p) {
                    return Ok(());
                }
                program(&p, &[], bound, ctx)
            },
        ));
    }
    if thorough {
        let sq2: Vec<Vec<usize>> = sq.iter().filter(|s| s.len() == 2).cloned().collect();
        s.push(space(
            "two and two",
            (sq2.len() * sq2.len()) as u64,
            &format!("two tasks with two of {} calls each, at most 3 preemptions", n),
            move |i, ctx| {
                let mut d = Dec(i);
                let (x, y) = (d.take(sq2.len()), d.take(sq2.len()));
                if x > y {
                    return Ok(());
                }
                let p = vec![ops(&sq2[x]), ops(&sq2[y])];
                if !disjoint(&p) {
                    return Ok(());
                }
                program(&p, &[], 3, ctx)
            },
        ));
    }
    s.push(space(
        "three tasks",
        (n * n * n) as u64,
        &format!("three tasks with one of {} calls each, at most {} preemptions", n, bound),
        move |i, ctx| {
            let mut d = Dec(i);
            let x: Vec<usize> = (0..3).map(|_| d.take(n)).collect();
            if x[0] > x[1] || x[1] > x[2] {
                return Ok(()); // the same up to the numbering of the tasks
            }
            let p: Vec<Vec<Op>> = x.iter().map(|i| vec![alphabet()[*i]]).collect();
            if !disjoint(&p) {
                return Ok(());
            }
            program(&p, &[], bound, ctx)
        },
    ));
    let rs = readers();
    {
        let (rs, sq) = (rs.clone(), sq.clone());
        s.push(space(
            "two calls and a reader",
            (sq.len() * rs.len()) as u64,
            &format!("a task with up to two of {} calls and one that iterates or reads relations or links, at most {} preemptions", n, bound + 1),
            move |i, ctx| {
                let mut d = Dec(i);
                let a = ops(d.pick(&sq));
                program(&[a], &[*d.pick(&rs)], bound + 1, ctx)
            },
        ));
    }
    let bound = if thorough { 3 } else { 2 };
    {
        let sq = sq.clone();
        s.push(space(
            "beside work",
            (sq.len() * 6) as u64,
            &format!(
                "a task with up to two of {} calls and one that updates poses, links or velocities, takes the centre of mass, prints or clones, at most {} preemptions",
                n, bound
            ),
            move |i, ctx| {
                let mut d = Dec(i);
                let a = ops(d.pick(&sq));
                program(&[a], &[Reader::Work(d.take(6) as u32)], bound, ctx)
            },
        ));
    }
    s.push(space(
        "two tasks and a reader",
        (n * n * rs.len()) as u64,
        &format!("two tasks with one of {} calls each and one that iterates or reads, at most {} preemptions", n, bound),
        move |i, ctx| {
            let mut d = Dec(i);
            let (x, y) = (d.take(n), d.take(n));
            if x > y {
                return Ok(());
            }
            let p = vec![vec![alphabet()[x]], vec![alphabet()[y]]];
            if !disjoint(&p) {
                return Ok(());
            }
            program(&p, &[*d.pick(&rs)], bound, ctx)
        },
    ));
    Check {
        id: "C25",
        spaces: s,
        assumptions: vec![
            "sequential consistency; tasks interact through locks and atomics only, which safe Rust guarantees",
            "a node is attached, detached or made to mimic by one task at a time (different tasks work on different nodes)",
        ],
    }
}
