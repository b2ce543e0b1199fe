//! C11-C15: the tree of nodes, clones, views, serial chains, printing.
use k::joint::Mimic;
use k::{Chain, Node, SerialChain};
use kmc::ensure;
use kmc::fw::*;
use kmc::model::*;
use kmc::real::*;

// ---------------------------------------------------------------- C11

#[derive(Clone, Copy, Debug)]
enum Op {
    Attach(usize, usize),
    Connect3(usize, usize, usize),
    Detach(usize, usize),
    Drop(usize),
}

/// handles[i]: the user still has node i
#[derive(Clone, Debug)]
struct Tree {
    handle: Vec<bool>,
    alive: Vec<bool>,
    parent: Vec<Option<usize>>,
}
impl Tree {
    fn new(n: usize) -> Tree {
        Tree {
            handle: vec![true; n],
            alive: vec![true; n],
            parent: vec![None; n],
        }
    }
    fn below(&self, mut c: usize, top: usize) -> bool {
        loop {
            if c == top {
                return true;
            }
            match self.parent[c] {
                Some(p) => c = p,
                None => return false,
            }
        }
    }
    /// frees what nobody holds; children of a freed node become roots
    fn gc(&mut self) {
        loop {
            let mut changed = false;
            for i in 0..self.alive.len() {
                if self.alive[i] && !self.handle[i] && self.parent[i].is_none() {
                    self.alive[i] = false;
                    for c in 0..self.alive.len() {
                        if self.parent[c] == Some(i) {
                            self.parent[c] = None;
                        }
                    }
                    changed = true;
                }
            }
            if !changed {
                return;
            }
        }
    }
    fn attach(&mut self, c: usize, p: usize) -> bool {
        if !self.handle[c] || !self.handle[p] || self.below(p, c) {
            return false;
        }
        self.parent[c] = Some(p);
        true
    }
    fn apply(&mut self, o: Op) -> bool {
        let done = match o {
            Op::Attach(c, p) => self.attach(c, p),
            Op::Connect3(a, b, c) => {
                let mut t = self.clone();
                if t.attach(b, a) && t.attach(c, b) {
                    *self = t;
                    true
                } else {
                    false
                }
            }
            Op::Detach(c, p) => {
                if !self.handle[c] || !self.handle[p] {
                    return false;
                }
                if self.parent[c] == Some(p) {
                    self.parent[c] = None;
                }
                true
            }
            Op::Drop(i) => {
                if !self.handle[i] {
                    return false;
                }
                self.handle[i] = false;
                true
            }
        };
        self.gc();
        done
    }
}
/// Nodes are told apart by their names, or, if all names are the same, by their origins.
fn make_node(i: usize, same_name: bool) -> Node<f64> {
    if same_name {
        k::NodeBuilder::new()
            .name("same")
            .translation(k::Translation3::new(i as f64, 0., 0.))
            .into_node()
    } else {
        k::NodeBuilder::new().name(&format!("n{}", i)).into_node()
    }
}
fn name_of(n: &Node<f64>) -> usize {
    let j = n.joint();
    if j.name == "same" {
        j.origin().translation.vector.x as usize
    } else {
        j.name[1..].parse().unwrap()
    }
}
fn check_tree(t: &Tree, h: &[Option<Node<f64>>]) -> Result<(), String> {
    for (i, n) in h.iter().enumerate() {
        let n = match n {
            Some(n) => n,
            None => continue,
        };
        let got = n.parent().map(|p| name_of(&p));
        ensure!(got == t.parent[i], "node {} has parent {:?} instead of {:?}", i, got, t.parent[i]);
        if let (Some(p), Some(got)) = (t.parent[i].and_then(|p| h[p].clone()), n.parent()) {
            ensure!(p == got, "node {}: the parent is another object", i);
        }
        ensure!(n.is_root() == t.parent[i].is_none(), "is_root of node {} is {}", i, n.is_root());
        // everything that can be reached from here
        let path: Vec<usize> = n.iter_ancestors().map(|x| name_of(&x)).collect();
        let mut want = vec![i];
        while let Some(p) = t.parent[*want.last().unwrap()] {
            want.push(p);
        }
        ensure!(path == want, "ancestors of node {} are {:?} instead of {:?}", i, path, want);
        let sub: Vec<Node<f64>> = n.iter_descendants().take(t.alive.len() + 1).collect();
        let names: Vec<usize> = sub.iter().map(name_of).collect();
        let mut sorted = names.clone();
        sorted.sort_unstable();
        let want: Vec<usize> = (0..t.alive.len()).filter(|x| t.alive[*x] && t.below(*x, i)).collect();
        ensure!(sorted == want, "descendants of node {} are {:?} instead of {:?}", i, names, want);
        ensure!(names[0] == i, "descendants of node {} start with {}", i, names[0]);
        for (k, x) in names.iter().enumerate().skip(1) {
            ensure!(
                names[..k].contains(&t.parent[*x].unwrap()),
                "descendants of {}: {:?}: {} comes before its parent",
                i,
                names,
                x
            );
        }
        for x in &sub {
            let xi = name_of(x);
            let mut ch: Vec<usize> = x.children().iter().map(name_of).collect();
            ch.sort_unstable();
            let want: Vec<usize> = (0..t.alive.len()).filter(|c| t.parent[*c] == Some(xi)).collect();
            ensure!(ch == want, "children of node {} are {:?} instead of {:?}", xi, ch, want);
            ensure!(x.is_end() == want.is_empty(), "is_end of node {} is {}", xi, x.is_end());
            ensure!(
                x.parent().map(|p| name_of(&p)) == t.parent[xi],
                "node {} has parent {:?}",
                xi,
                x.parent().map(|p| name_of(&p))
            );
        }
    }
    Ok(())
}
fn tree_ops(n: usize, connect: bool) -> Vec<Op> {
    let mut v = vec![];
    for a in 0..n {
        for b in 0..n {
            if a != b {
                v.push(Op::Attach(a, b));
                v.push(Op::Detach(a, b));
            }
        }
    }
    for a in 0..n {
        v.push(Op::Drop(a));
    }
    if connect {
        for a in 0..n {
            for b in 0..n {
                for c in 0..n {
                    if a != b && b != c && a != c {
                        v.push(Op::Connect3(a, b, c));
                    }
                }
            }
        }
    }
    v
}
fn c11_seq(n: usize, depth: u32, connect: bool) -> Space {
    let ops = tree_ops(n, connect);
    let k = ops.len() as u64;
    space(
        &format!("n{}d{}{}", n, depth, if connect { "c" } else { "" }),
        k.pow(depth) * 2,
        &format!("all sequences of {} operations out of {} on {} nodes with distinct names or the same name, all relations checked at the end", depth, k, n),
        move |i, ctx| {
            let mut d = Dec(i);
            let same_name = d.take(2) == 1;
            let mut t = Tree::new(n);
            let seq: Vec<Op> = (0..depth).map(|_| *d.pick(&ops)).collect();
            // sequences with an operation that is not possible are another, shorter sequence
            {
                let mut t = t.clone();
                for o in &seq {
                    if !t.apply(*o) {
                        ctx.count("not applicable (cycle or dropped handle)");
                        return Ok(());
                    }
                }
            }
            let mut h: Vec<Option<Node<f64>>> = (0..n).map(|i| Some(make_node(i, same_name))).collect();
            for o in &seq {
                ctx.note(|| format!("{:?}", o));
                t.apply(*o);
                ctx.step();
                match *o {
                    Op::Attach(c, p) => h[c].as_ref().unwrap().set_parent(h[p].as_ref().unwrap()),
                    Op::Connect3(a, b, c) => {
                        let (a, b, c) = (h[a].clone().unwrap(), h[b].clone().unwrap(), h[c].clone().unwrap());
                        k::connect!(a => b => c);
                    }
                    Op::Detach(c, p) => h[c].as_ref().unwrap().remove_parent(h[p].as_ref().unwrap()),
                    Op::Drop(i) => h[i] = None,
                }
            }
            check_tree(&t, &h)?;
            ctx.count("checked");
            let key: Vec<u64> = (0..n)
                .map(|i| t.parent[i].map_or(9, |p| p as u64) * 4 + t.handle[i] as u64 * 2 + t.alive[i] as u64)
                .collect();
            ctx.state_hash(hash_of(&key));
            Ok(())
        },
    )
}
fn c11(t: Tier) -> Check {
    let mut s = vec![];
    let (d3, d4, dc) = if t == Tier::Quick { (6, 4, 3) } else { (7, 5, 4) };
    for d in 1..=d3 {
        s.push(c11_seq(3, d, false));
    }
    for d in 1..=d4 {
        s.push(c11_seq(4, d, false));
    }
    for d in 1..=dc {
        s.push(c11_seq(4, d, true));
    }
    s.push(c11_seq(5, if t == Tier::Quick { 3 } else { 4 }, false));
    // larger trees, built in every order of attaching, with every single node moved or detached
    let shapes6: Vec<Vec<Option<usize>>> = (2..=6).flat_map(shapes).collect();
    let len = shapes6.len() as u64 * 6 * 42 * 2;
    s.push(space(
        "big",
        len,
        "all trees of up to 6 nodes x 6 orders of attaching x every move or detachment of one node, with distinct names or the same name",
        move |i, ctx| {
            let mut d = Dec(i);
            let sh = d.pick(&shapes6).clone();
            let n = sh.len();
            let order = d.take(6);
            let op = d.take(42);
            let (c, p) = (op % 6, op / 6);
            let same_name = d.take(2) == 1;
            if c >= n || (p >= n && p != 6) {
                return Ok(());
            }
            let h: Vec<Option<Node<f64>>> = (0..n).map(|i| Some(make_node(i, same_name))).collect();
            let mut t = Tree::new(n);
            let mut idx: Vec<usize> = (1..n).collect();
            match order {
                0 => {}
                1 => idx.reverse(),
                k => {
                    let r = k % idx.len();
                    idx.rotate_left(r);
                    if k > 3 {
                        idx.reverse()
                    }
                }
            }
            for i in idx {
                h[i].as_ref().unwrap().set_parent(h[sh[i].unwrap()].as_ref().unwrap());
                t.parent[i] = sh[i];
                ctx.step();
            }
            check_tree(&t, &h)?;
            let nc = h[c].as_ref().unwrap();
            ctx.note(|| format!("{:?} order {} then node {} to {}", sh, order, c, p));
            if p == 6 {
                for x in 0..n {
                    if x != c {
                        nc.remove_parent(h[x].as_ref().unwrap());
                    }
                }
                t.parent[c] = None;
            } else if t.attach(c, p) {
                nc.set_parent(h[p].as_ref().unwrap());
            } else {
                return Ok(());
            }
            ctx.step();
            check_tree(&t, &h)?;
            ctx.count("checked");
            ctx.state();
            Ok(())
        },
    ));
    // long paths, wide stars and mixtures of both
    let sizes: &'static [usize] = if t == Tier::Quick { &[12, 17, 33, 65, 101, 130, 160] } else { &[12, 17, 33, 65, 101, 130, 160, 258, 300] };
    s.push(space(
        "large",
        sizes.len() as u64 * 5 * 2 * 2 * 3,
        &format!("paths, stars, binary trees, combs and bunches of {:?} nodes x 2 orders of attaching x names x a later move", sizes),
        move |i, ctx| {
            let mut d = Dec(i);
            let n = *d.pick(sizes);
            let shape = d.take(5);
            let upwards = d.take(2) == 1;
            let same_name = d.take(2) == 1;
            let then = d.take(3);
            let parent = |i: usize| match shape {
                0 => i - 1,
                1 => 0,
                2 => (i - 1) / 2,
                3 => i - 1 - (i + 1) % 2,
                _ => (i - 1) / 10 * 10,
            };
            ctx.note(|| format!("shape {} of {} nodes, then {}", shape, n, then));
            let h: Vec<Option<Node<f64>>> = (0..n).map(|i| Some(make_node(i, same_name))).collect();
            let mut t = Tree::new(n);
            for k in 1..n {
                let i = if upwards { n - k } else { k };
                h[i].as_ref().unwrap().set_parent(h[parent(i)].as_ref().unwrap());
                t.parent[i] = Some(parent(i));
                ctx.step();
            }
            check_tree(&t, &h)?;
            let (c, p) = [(n / 2, 0), (1, n - 1), (n - 1, n / 3)][then];
            if t.attach(c, p) {
                h[c].as_ref().unwrap().set_parent(h[p].as_ref().unwrap());
                ctx.step();
                check_tree(&t, &h)?;
            } else if let Some(p) = t.parent[c] {
                h[c].as_ref().unwrap().remove_parent(h[p].as_ref().unwrap());
                t.parent[c] = None;
                ctx.step();
                check_tree(&t, &h)?;
            }
            ctx.count("checked");
            ctx.state();
            Ok(())
        },
    ));
    // the same few operations over and over, or one attached again and again between others
    s.push(space("many", 3 * 4 * 4 * 2, "2 to 4 operations on 4 nodes repeated 100, 256, 300 and 66,000 times; the relations afterwards", |i, ctx| {
        let mut d = Dec(i);
        let set: &[Op] = [
            &[Op::Attach(1, 0), Op::Detach(1, 0)][..],
            &[Op::Attach(2, 0), Op::Attach(2, 1), Op::Attach(3, 2)],
            &[Op::Attach(1, 0), Op::Attach(1, 0), Op::Attach(2, 0), Op::Detach(1, 0)],
        ][d.take(3)];
        let times = [100usize, 256, 300, 66_000][d.take(4)];
        let extra = d.take(4);
        let same_name = d.take(2) == 1;
        let h: Vec<Option<Node<f64>>> = (0..4).map(|i| Some(make_node(i, same_name))).collect();
        let mut t = Tree::new(4);
        ctx.note(|| format!("{:?} x {} and {} more", set, times, extra));
        for k in 0..times * set.len() + extra {
            let o = set[k % set.len()];
            ensure!(t.apply(o), "not applicable");
            match o {
                Op::Attach(c, p) => h[c].as_ref().unwrap().set_parent(h[p].as_ref().unwrap()),
                Op::Detach(c, p) => h[c].as_ref().unwrap().remove_parent(h[p].as_ref().unwrap()),
                _ => {}
            }
            ctx.step();
            if k < 600 || k % 997 == 0 {
                check_tree(&t, &h).map_err(|e| format!("operation {}: {}", k, e))?;
            }
        }
        check_tree(&t, &h)?;
        ctx.state();
        Ok(())
    }));
    Check {
        id: "C11",
        spaces: s,
        assumptions: vec!["operations that would create a cycle are excluded, as the property does"],
    }
}

// ---------------------------------------------------------------- C12

fn joint_text<T: Sc>(n: &Node<T>) -> String {
    let j = n.joint();
    format!(
        "{:?} {:?} limits {:?} origin {:?} position {:?} velocity {:?} pose {:?} world velocity {:?}",
        j.name,
        j.joint_type,
        j.limits,
        j.origin(),
        j.joint_position(),
        j.joint_velocity(),
        j.world_transform(),
        j.world_velocity()
    )
}
/// Everything that can be seen of some nodes
fn snapshot<T: Sc>(nodes: &[Node<T>]) -> Vec<String> {
    let name = |n: &Node<T>| n.joint().name.clone();
    nodes
        .iter()
        .map(|n| {
            let p = n.parent().map(|x| name(&x));
            let mp = n.mimic_parent().map(|x| name(&x));
            let ch: Vec<Node<T>> = n.children().clone();
            let ch: Vec<String> = ch.iter().map(name).collect();
            let j = joint_text(n);
            let l = format!("{:?}", *n.link());
            format!("{}\n  parent {:?} children {:?} mimics {:?}\n  link {}", j, p, ch, mp, l)
        })
        .collect()
}
/// the same, restricted to relations among the given nodes
fn snapshot_inside<T: Sc>(nodes: &[Node<T>]) -> Vec<String> {
    let name = |n: &Node<T>| n.joint().name.clone();
    let inside = |n: &Node<T>| nodes.iter().position(|x| x == n);
    nodes
        .iter()
        .map(|n| {
            let p = n.parent().and_then(|x| inside(&x));
            let mp = n.mimic_parent().and_then(|x| inside(&x));
            let ch: Vec<Node<T>> = n.children().clone();
            let ch: Vec<usize> = ch.iter().filter_map(inside).collect();
            let j = joint_text(n);
            let l = format!("{:?}", *n.link());
            format!("{} {}\n  parent {:?} children {:?} mimics {:?}\n  link {}", name(n), j, p, ch, mp, l)
        })
        .collect()
}
fn first_diff(a: &[String], b: &[String]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} nodes and {} nodes", a.len(), b.len()));
    }
    a.iter().zip(b).find(|(x, y)| x != y).map(|(x, y)| format!("\n{}\nand\n{}", x, y))
}
fn chain_nodes<T: Sc>(c: &Chain<T>) -> Vec<Node<T>> {
    c.iter().cloned().collect()
}
#[derive(Clone, Copy, Debug)]
enum COp {
    Set(usize, f64),
    Clamp(usize, f64),
    Unchecked(usize, f64),
    SetAll,
    ClampAll,
    Origin(usize),
    UpdT,
    UpdV,
    UpdL,
    LinkOff(usize),
    LinkOn(usize),
    NewChild(usize),
    Detach(usize),
    Mimic(usize, usize),
    Ik,
    Print,
    Com,
}
fn com_str<T: Sc>(c: &Chain<T>) -> String {
    if c.iter().any(|n| n.link().as_ref().map_or(false, |l| l.inertial.mass.d() > 0.)) {
        format!("{:?}", k::center_of_mass(c))
    } else {
        String::new()
    }
}
/// Performs an operation; the text is what it returned
fn do_cop<T: Sc>(o: COp, c: &Chain<T>) -> String {
    let ns = chain_nodes(c);
    let n = ns.len();
    let at = |i: usize| &ns[i % n];
    match o {
        COp::Set(i, q) => format!("{:?}", at(i).set_joint_position(T::of(q))),
        COp::Clamp(i, q) => {
            at(i).set_joint_position_clamped(T::of(q));
            String::new()
        }
        COp::Unchecked(i, q) => {
            at(i).set_joint_position_unchecked(T::of(q));
            String::new()
        }
        COp::SetAll => {
            let v: Vec<T> = (0..c.dof()).map(|i| T::of(0.1 * i as f64 - 0.2)).collect();
            format!("{:?}", c.set_joint_positions(&v))
        }
        COp::ClampAll => {
            let v: Vec<T> = (0..c.dof()).map(|i| T::of(3.0 - 2.0 * i as f64)).collect();
            c.set_joint_positions_clamped(&v);
            String::new()
        }
        COp::Origin(i) => {
            at(i).set_origin(iso(&ORGS[7]));
            String::new()
        }
        COp::UpdT => format!("{:?}", c.update_transforms()),
        COp::UpdV => format!("{:?}", c.update_velocities()),
        COp::UpdL => {
            c.update_link_transforms();
            String::new()
        }
        COp::LinkOff(i) => {
            at(i).set_link(None);
            String::new()
        }
        COp::LinkOn(i) => {
            let mut l = palette_link(i, 2).unwrap();
            l.name = "another".into();
            at(i).set_link(Some(link(&l)));
            String::new()
        }
        COp::NewChild(i) => {
            let x = Node::new(joint::<T>(&palette_node(5, 1, 0)));
            x.set_parent(at(i));
            String::new()
        }
        COp::Detach(i) => {
            if let Some(p) = at(i).parent() {
                at(i).remove_parent(&p);
            }
            String::new()
        }
        COp::Mimic(i, j) => {
            let (i, j) = (i % n, j % n);
            // no cycles, and no fixed joints
            let mut x = Some(ns[j].clone());
            while let Some(y) = x {
                if y == ns[i] {
                    return String::new();
                }
                x = y.mimic_parent();
            }
            ns[i].set_mimic_parent(&ns[j], Mimic::new(T::of(-0.5), T::of(0.1)));
            String::new()
        }
        COp::Ik => {
            let path: Vec<Node<T>> = ns[n - 1].iter_ancestors().collect();
            if path.iter().any(|x| !ns.contains(x)) {
                return String::new();
            }
            let arm = SerialChain::from_end(&ns[n - 1]);
            if arm.dof() == 0 {
                return String::new();
            }
            let mut target = arm.end_transform();
            target.translation.vector[0] += T::of(0.01);
            let solver = k::JacobianIkSolver::new(T::of(1e-3), T::of(1e-3), T::of(0.5), 3);
            let cons = k::Constraints {
                position_y: false,
                position_z: false,
                rotation_x: false,
                rotation_y: false,
                rotation_z: false,
                ..Default::default()
            };
            use k::InverseKinematicsSolver;
            format!("{:?}", solver.solve_with_constraints(&arm, &target, &cons))
        }
        COp::Print => format!("{}", c),
        COp::Com => com_str(c),
    }
}
const COPS: [COp; 24] = [
    COp::Set(0, 0.3),
    COp::Set(1, -0.4),
    COp::Set(2, 0.25),
    COp::Set(3, 5.0),
    COp::Clamp(0, 9.0),
    COp::Clamp(1, -9.0),
    COp::Clamp(3, 0.1),
    COp::Unchecked(1, 7.0),
    COp::SetAll,
    COp::ClampAll,
    COp::Origin(0),
    COp::Origin(1),
    COp::UpdT,
    COp::UpdV,
    COp::UpdL,
    COp::LinkOff(1),
    COp::LinkOn(0),
    COp::NewChild(0),
    COp::Detach(1),
    COp::Mimic(1, 0),
    COp::Mimic(0, 2),
    COp::Ik,
    COp::Print,
    COp::Com,
];
const N_MIM4: usize = 10;
/// mimic relations among four movable joints (some are outside of path chains)
fn with_mimics(m: &mut Model, code: usize) {
    let rel: &[(usize, usize)] = [
        &[][..],
        &[(1, 0)],
        &[(2, 0), (1, 2)],
        &[(3, 1)],
        &[(1, 3)],
        &[(0, 3)],
        &[(1, 0), (2, 0), (3, 0)],
        &[(0, 2), (3, 2)],
        &[(2, 1), (3, 2)],
        &[(1, 2)],
    ][code];
    let n = m.nodes.len();
    for (k, (f, d)) in rel.iter().enumerate() {
        if *f < n && *d < n && m.nodes[*f].kind.movable() && m.nodes[*d].kind.movable() {
            m.nodes[*f].mimic = Some((*d, [0.5, -1.0, 2.0][k % 3], [0.0, 0.25, -0.5][k % 3]));
        }
    }
}
/// none, wide, narrow, open to one side or both, a single point, away from where the joint is
const C12_LIMITS: [Option<(f64, f64)>; 9] = [
    None,
    Some((-3.0, 3.0)),
    Some((-0.5, 2.0)),
    Some((f64::NEG_INFINITY, 0.5)),
    Some((-0.25, f64::INFINITY)),
    Some((0.25, 0.25)),
    None,
    Some((f64::NEG_INFINITY, f64::INFINITY)),
    Some((5.0, 1e9)),
];
/// (robot, views starting at a root)
/// some joints rest, by turns: none, one half or the other, all
fn resting(m: &mut Model, code: usize) {
    for i in 0..m.nodes.len() {
        if [false, i % 2 == 0, i % 2 == 1, true][code % 4] {
            m.nodes[i].qd = 0.;
        }
    }
}
fn c12_robot(d: &mut Dec, shapes: &[Vec<Option<usize>>], all_links: bool) -> Model {
    let si = d.take(shapes.len());
    let sh = shapes[si].clone();
    let n = sh.len();
    let ki = d.take(4);
    let kinds: Vec<u8> = match ki {
        0 => (0..n).map(|_| 1).collect(),
        1 => (0..n).map(|i| [0, 1, 2, 1][i % 4]).collect(),
        2 => (0..n).map(|i| [2, 0, 1, 2][i % 4]).collect(),
        _ => (0..n).map(|i| [1, 2, 1, 0][i % 4]).collect(),
    };
    let mut m = tree(&sh, &kinds, 0);
    let c = if all_links { d.take(3) } else { (si + ki) % 3 };
    for i in 0..n {
        m.nodes[i].link = palette_link(i, [[1, 2, 3, 0], [0, 3, 1, 2], [2, 0, 0, 1]][c][i % 4]);
        m.nodes[i].limits = C12_LIMITS[(i + 3 * c + 5 * (ki / 2)) % C12_LIMITS.len()];
    }
    let mi = d.take(N_MIM4);
    with_mimics(&mut m, mi);
    resting(&mut m, si + ki / 2 + mi);
    // names need not be unique
    for i in 0..n {
        match (si + ki + c) % 4 {
            1 => m.nodes[i].name = "same".into(),
            2 => m.nodes[i].name = format!("pair{}", i % 2),
            _ => {}
        }
    }
    m
}
fn c12_robot_len(n_shapes: usize) -> u64 {
    prod(&[n_shapes, 4, 3, N_MIM4])
}
fn clone_of<T: Sc>(c: &Chain<T>, nodes: &[Node<T>], v: View) -> Chain<T> {
    match v {
        // through the serial chain, too
        View::Part(e, r) => serial(nodes, e, Some(r)).clone().unwrap(),
        _ => c.clone(),
    }
}
fn c12_case<T: Sc>(m: &Model, v: View, hist: usize, ops: &[COp], side: usize, ctx: &mut Ctx) -> Result<(), String> {
    let nodes = build::<T>(m);
    let whole = Chain::from_root(nodes[0].clone());
    match hist {
        0 => {}
        1 => {
            whole.update_velocities();
            whole.update_link_transforms();
        }
        2 => {
            whole.update_transforms();
            nodes[m.nodes.len() / 2].set_joint_position_clamped(T::of(0.2));
        }
        _ => {
            // give the joints another order: the first child is attached again, and becomes the last
            let first: Option<Node<T>> = nodes[0].children().iter().next().cloned();
            if let Some(x) = first {
                x.remove_parent(&nodes[0]);
                x.set_parent(&nodes[0]);
            }
            whole.update_transforms();
        }
    }
    let orig = view(&nodes, v);
    let on = chain_nodes(&orig);
    let outside: Vec<Node<T>> = nodes.iter().filter(|x| !on.contains(x)).cloned().collect();
    let copy = clone_of(&orig, &nodes, v);
    let cn = Robot(chain_nodes(&copy));
    // same robot
    if let Some(x) = first_diff(&snapshot_inside(&on), &snapshot_inside(&cn)) {
        return Err(format!("the clone of {:?} differs: {}", v, x));
    }
    ensure!(orig.dof() == copy.dof(), "dof {} and {}", orig.dof(), copy.dof());
    ensure!(orig.joint_positions() == copy.joint_positions(), "positions differ");
    ensure!(orig.origin() == copy.origin(), "origin differs");
    for x in cn.iter() {
        ensure!(!nodes.contains(x), "the clone shares node {}", x.joint().name);
        for y in x.iter_descendants().take(50).chain(x.iter_ancestors().take(50)) {
            ensure!(cn.contains(&y), "the clone is connected to node {}, which is not its own", y.joint().name);
        }
        if let Some(y) = x.mimic_parent() {
            ensure!(cn.contains(&y), "in the clone {} mimics a node outside of it", x.joint().name);
        }
    }
    ctx.state();
    // relations with joints outside of the clone make the same commands differ, legitimately
    let closed = on.iter().all(|x| {
        x.mimic_parent().map_or(true, |y| on.contains(&y)) && x.children().iter().all(|c| on.contains(c))
    });
    let (a, b) = if side == 0 { (&orig, &copy) } else { (&copy, &orig) };
    for o in ops {
        ctx.note(|| format!("{:?} on the {}", o, if side == 0 { "original" } else { "clone" }));
        let before = snapshot(&chain_nodes(b));
        let before_out = snapshot(&outside);
        let ra = do_cop(*o, a);
        ctx.step();
        if let Some(x) = first_diff(&before, &snapshot(&chain_nodes(b))) {
            return Err(format!("{:?} on one is visible in the other: {}", o, x));
        }
        if side == 1 {
            if let Some(x) = first_diff(&before_out, &snapshot(&outside)) {
                return Err(format!("{:?} on the clone is visible outside of it: {}", o, x));
            }
        }
        if closed {
            let rb = do_cop(*o, b);
            ctx.step();
            ensure!(ra == rb, "{:?} returns\n{}\nand\n{}", o, ra, rb);
            if let Some(x) = first_diff(&snapshot_inside(&chain_nodes(a)), &snapshot_inside(&chain_nodes(b))) {
                return Err(format!("after {:?} on both they differ: {}", o, x));
            }
            // nodes added by one of the operations are part of neither chain, but must agree as well
            let (x, y) = (Chain::from_root(chain_nodes(a)[0].clone()), Chain::from_root(chain_nodes(b)[0].clone()));
            let (x, y) = (snapshot(&chain_nodes(&x)), snapshot(&chain_nodes(&y)));
            if let Some(z) = first_diff(&x, &y) {
                return Err(format!("after {:?} on both the trees differ: {}", o, z));
            }
        }
        ctx.state();
    }
    ctx.count(if closed { "closed" } else { "with relations to outside" });
    Ok(())
}
fn c12(t: Tier) -> Check {
    let shapes4: Vec<Vec<Option<usize>>> = (1..=4).flat_map(shapes).collect();
    let shapes5: Vec<Vec<Option<usize>>> = shapes(5);
    let mut s = vec![];
    // equality of the clone, for every view that starts at a root
    for (name, sh) in [("equal4", shapes4.clone()), ("equal5", shapes5)] {
        let len = c12_robot_len(sh.len()) * 4;
        s.push(space(
            name,
            len,
            "trees x kinds x links x limits x mimic relations x histories; whole tree and every path from the root; f64 and f32",
            move |i, ctx| {
                let mut d = Dec(i);
                let m = c12_robot(&mut d, &sh, true);
                let hist = d.take(4);
                ctx.note(|| m.describe());
                for v in std::iter::once(View::Tree(0))
                    .chain((0..m.nodes.len()).map(View::End))
                    .chain((0..m.nodes.len()).map(|e| View::Part(e, 0)))
                {
                    c12_case::<f64>(&m, v, hist, &[], 0, ctx)?;
                    c12_case::<f32>(&m, v, hist, &[], 1, ctx)?;
                }
                Ok(())
            },
        ));
    }
    // independence and equal behaviour: sequences of operations
    let depth = if t == Tier::Quick { 2 } else { 3 };
    let sh: Vec<Vec<Option<usize>>> = vec![
        vec![None, Some(0), Some(1), Some(2)],
        vec![None, Some(0), Some(0), Some(0)],
        vec![None, Some(0), Some(1), Some(0)],
        vec![None, Some(0), Some(1), Some(1)],
    ];
    let quick = t == Tier::Quick;
    let len = c12_robot_len(sh.len()) / if quick { 3 } else { 1 } * 3 * 2 * (COPS.len() as u64).pow(depth);
    s.push(space(
        "ops",
        len,
        &format!(
            "robots of 4 joints x (whole tree, two paths) x original or clone x all {}-sequences of {} operations",
            depth,
            COPS.len()
        ),
        move |i, ctx| {
            let mut d = Dec(i);
            let ops: Vec<COp> = (0..depth).map(|_| *d.pick(&COPS)).collect();
            let side = d.take(2);
            let v = [View::Tree(0), View::End(3), View::Part(2, 0)][d.take(3)];
            let m = c12_robot(&mut d, &sh, !quick);
            ctx.note(|| format!("{:?}\n{}", v, m.describe()));
            c12_case::<f64>(&m, v, 1, &ops, side, ctx)
        },
    ));
    s.push(space(
        "elements",
        prod(&[9, 9, 4, 3]),
        "robots of 3 joints whose links have 0 to 70 visual and collision elements x histories; whole tree and two paths",
        |i, ctx| {
            let mut d = Dec(i);
            let (nv, nc) = (*d.pick(&COUNTS), *d.pick(&COUNTS));
            let hist = d.take(4);
            let v = [View::Tree(0), View::End(2), View::Part(1, 0)][d.take(3)];
            let mut m = tree(&[None, Some(0), Some(1)], &[1, 2, 1], 0);
            for j in 0..3 {
                m.nodes[j].link = Some(long_link(3 * j, if j == 1 { nc } else { nv }, if j == 1 { nv } else { nc }));
            }
            ctx.note(|| format!("{:?}, {} visuals, {} collisions", v, nv, nc));
            let ops = [COp::Set(0, 0.3), COp::UpdL, COp::SetAll];
            c12_case::<f64>(&m, v, hist, &ops, (i % 2) as usize, ctx)?;
            c12_case::<f32>(&m, v, hist, &ops[..1], (i % 2) as usize, ctx)
        },
    ));
    s.push(space(
        "large",
        prod(&[5, 4, 3, 5, 4, 3]),
        "chains, stars, binary trees and combs of 9 to 140 joints x kinds x mimic relations (one behind the other, all of one, from the end) x histories; whole tree and two paths",
        |i, ctx| {
            let mut d = Dec(i);
            let n = [9usize, 17, 34, 70, 140][d.take(5)];
            let shape = d.take(4);
            let kp = d.take(3);
            let rel = d.take(5);
            let hist = d.take(4);
            let v = [View::Tree(0), View::End(n - 1), View::Part(n - 1, 0)][d.take(3)];
            let sh: Vec<Option<usize>> = (0..n)
                .map(|i| if i == 0 { None } else { Some([i - 1, 0, (i - 1) / 2, i - 1 - (i + 1) % 2][shape]) })
                .collect();
            let kinds: Vec<u8> = (0..n).map(|i| [[1, 1, 1, 1], [1, 2, 0, 1], [2, 0, 0, 2]][kp][i % 4]).collect();
            let mut m = tree(&sh, &kinds, 0);
            let mov: Vec<usize> = (0..n).filter(|i| m.nodes[*i].kind.movable()).collect();
            resting(&mut m, hist + rel);
            for k in 0..n {
                m.nodes[k].link = palette_link(k, (k * 3 + n) % 4);
                m.nodes[k].limits = C12_LIMITS[(k + n) % C12_LIMITS.len()];
                if k % 5 == 3 {
                    m.nodes[k].name = "same".into();
                }
            }
            for k in 0..mov.len() {
                let dr = match rel {
                    0 => None,
                    1 => (k > 0).then(|| k - 1),
                    2 => (k > 0).then_some(0),
                    3 => (k + 1 < mov.len()).then(|| k + 1),
                    _ => (k + 1 < mov.len()).then(|| mov.len() - 1),
                };
                m.nodes[mov[k]].mimic = dr.map(|x| (mov[x], [1.0, -1.0][k % 2], [0.0, 0.125][k % 2]));
            }
            ctx.note(|| format!("{:?}\n{}", v, m.describe()));
            let ops = [COp::SetAll, COp::Set(0, 0.3), COp::Clamp(n - 1, 0.4), COp::Detach(n / 2), COp::UpdL, COp::ClampAll];
            c12_case::<f64>(&m, v, hist, &ops, (i % 2) as usize, ctx)?;
            c12_case::<f32>(&m, v, hist, &ops[..2], (i % 2) as usize, ctx)
        },
    ));
    Check {
        id: "C12",
        spaces: s,
        assumptions: vec![
            "a chain that does not start at a root is not cloned (the property excludes it)",
            "where a joint mimics a joint outside of the clone, or has children outside of it, only the state, not the effect of later commands, is compared",
        ],
    }
}

// ---------------------------------------------------------------- C13

fn c13_compare<T: Sc>(m: &Model, nodes: &[Node<T>], views: &[(View, Chain<T>, Vec<usize>)], what: &str) -> Result<(), String> {
    for (i, n) in m.nodes.iter().enumerate() {
        let want = if n.kind.movable() { Some(T::of(n.q)) } else { None };
        let got = nodes[i].joint_position();
        ensure!(got == want, "{}: joint {} is at {:?} instead of {:?}", what, i, got, want);
    }
    for (i, n) in m.nodes.iter().enumerate() {
        check_pose(&format!("{}: origin of {}", what, i), &nodes[i].origin(), &n.org.pose(), tol::<T>(m))?;
    }
    for (v, c, idx) in views {
        let first = &m.nodes[idx[0]];
        check_pose(&format!("{}: origin of {:?}", what, v), &c.origin(), &first.org.pose(), tol::<T>(m))?;
        let want: Vec<T> = idx
            .iter()
            .filter(|i| m.nodes[**i].kind.movable())
            .map(|i| T::of(m.nodes[*i].q))
            .collect();
        ensure!(
            c.joint_positions() == want,
            "{}: {:?} reads {:?} instead of {:?}",
            what,
            v,
            c.joint_positions(),
            want
        );
    }
    Ok(())
}
fn c13_share<T: Sc>(m: &Model, ctx: &mut Ctx) -> Result<(), String> {
    let nodes = build::<T>(m);
    let vs: Vec<(View, Chain<T>, Vec<usize>)> = views(m)
        .into_iter()
        .map(|v| {
            let c = view(&nodes, v);
            let idx = indices(&nodes, &c);
            (v, c, idx)
        })
        .collect();
    let serials: Vec<SerialChain<T>> = (0..m.nodes.len()).map(|e| SerialChain::from_end(&nodes[e])).collect();
    let mut m = m.clone();
    let tol = tol::<T>(&m) * 4.;
    for (k, (v, c, idx)) in vs.iter().enumerate() {
        let mov: Vec<usize> = idx.iter().copied().filter(|i| m.nodes[*i].kind.movable()).collect();
        let qs: Vec<f64> = (0..mov.len()).map(|x| 0.125 * ((x * 3 + k) % 11) as f64 - 0.5).collect();
        let w: Vec<T> = qs.iter().map(|x| T::of(*x)).collect();
        match k % 3 {
            0 => c.set_joint_positions(&w).map_err(|e| format!("{:?}: {:?}", v, e))?,
            1 => c.set_joint_positions_clamped(&w),
            _ => {
                for (i, q) in mov.iter().zip(w.iter()) {
                    let name = &m.nodes[*i].name;
                    let unique = m.nodes.iter().filter(|x| x.name == *name).count() == 1;
                    let n = if unique { c.find(name) } else { c.iter().find(|n| **n == nodes[*i]) };
                    n.ok_or("not found")?.set_joint_position(*q).map_err(|e| format!("{:?}: {:?}", v, e))?;
                }
            }
        }
        for (i, q) in mov.iter().zip(qs.iter()) {
            if m.nodes[*i].mimic.is_none() {
                let wr = m.checked(*i, *q).ok_or("model refuses")?;
                m.apply(&wr);
            }
        }
        ctx.step();
        c13_compare(&m, &nodes, &vs, &format!("written through {:?}", v))?;
        // the origin of a view is that of its first node
        m.nodes[idx[0]].org = Org { t: [0.25 * k as f64, -0.5, 1.0], axis: [0., 1., 0.], angle: 0.3 * (k % 5) as f64 };
        c.set_origin(iso(&m.nodes[idx[0]].org));
        ctx.step();
        c13_compare(&m, &nodes, &vs, &format!("origin set through {:?}", v))?;
        for (e, s) in serials.iter().enumerate() {
            check_pose(&format!("end {} after a write through {:?}", e, v), &s.end_transform(), &m.world(e), tol)?;
        }
        // a pose set through one is what every other reads
        c.update_transforms();
        for (v2, c2, idx2) in &vs {
            for (n, i) in c2.iter().zip(idx2.iter()) {
                if idx.contains(i) {
                    let t = n.world_transform().ok_or(format!(
                        "{:?} reports no pose of {} after an update through {:?}",
                        v2, m.nodes[*i].name, v
                    ))?;
                    check_pose(&format!("{:?} after an update through {:?}: {}", v2, v, i), &t, &m.world(*i), tol)?;
                }
            }
        }
        // and a velocity
        c.update_velocities();
        for (v2, c2, idx2) in &vs {
            for (n, i) in c2.iter().zip(idx2.iter()) {
                if idx.contains(i) {
                    let t = n.world_velocity().ok_or(format!("{:?} reports no velocity of {} after an update through {:?}", v2, i, v))?;
                    let (a, b) = m.velocity(*i);
                    let d = (0..3).fold(0f64, |d, x| d.max((t.translation[x].d() - a[x]).abs()).max((t.rotation[x].d() - b[x]).abs()));
                    ensure!(d <= tol * 30., "{:?} reports the velocity {:?} of {} after an update through {:?}, not {:?} {:?}", v2, t, i, v, a, b);
                }
            }
        }
        ctx.state_hash(m.key());
    }
    Ok(())
}
/// Keeps one view, drops everything else, and goes on
fn c13_drop<T: Sc>(m: &Model, v: View, keep_serial: bool, order: usize, ctx: &mut Ctx) -> Result<(), String> {
    ctx.note(|| format!("{} {:?} serial {} order {}", T::NAME, v, keep_serial, order));
    let robot = build::<T>(m);
    let mut nodes = robot.0.clone();
    drop_robot(robot);
    let others: Vec<Chain<T>> = views(m).into_iter().map(|w| view(&nodes, w)).collect();
    let names: Vec<String> = m.nodes.iter().map(|n| n.name.clone()).collect();
    let (c, s) = if keep_serial {
        let (e, r) = match v {
            View::End(e) => (e, None),
            View::Part(e, r) => (e, Some(r)),
            View::Tree(_) | View::Pick(_) | View::Rev(_) => return Ok(()),
        };
        let s = serial(&nodes, e, r);
        (Chain::from_nodes(s.iter().cloned().collect()), Some(s))
    } else {
        (view(&nodes, v), None)
    };
    let idx = indices(&nodes, &c);
    let c = match &s {
        Some(_) => {
            // only the serial chain is kept
            drop(c);
            None
        }
        None => Some(c),
    };
    match order {
        0 => {
            nodes.clear();
            drop(others);
        }
        1 => {
            drop(others);
            while let Some(x) = nodes.pop() {
                drop(x);
            }
        }
        _ => {
            drop(others);
            nodes.reverse();
            while let Some(x) = nodes.pop() {
                drop(x);
            }
        }
    }
    let c: &Chain<T> = match (&c, &s) {
        (Some(c), _) => c,
        (_, Some(s)) => s,
        _ => unreachable!(),
    };
    // what is left: nodes in the chain; below them; what they drive
    let mut m = m.clone();
    let n = m.nodes.len();
    let mut alive = vec![false; n];
    for i in &idx {
        alive[*i] = true;
    }
    loop {
        let mut more = false;
        for i in 0..n {
            if alive[i] {
                for x in m.children(i).into_iter().chain(m.followers(i)) {
                    if !alive[x] {
                        alive[x] = true;
                        more = true;
                    }
                }
            }
        }
        if !more {
            break;
        }
    }
    // a joint which mimics its own descendant may be kept alive by it: whether it is, is not specified
    let mut held = vec![true; n];
    loop {
        let free = (0..n).find(|i| {
            held[*i]
                && !idx.contains(i)
                && !m.nodes[*i].parent.map_or(false, |p| held[p])
                && !m.nodes[*i].mimic.map_or(false, |t| held[t.0])
        });
        match free {
            Some(i) => held[i] = false,
            None => break,
        }
    }
    if held != alive {
        ctx.count("not specified");
        teardown(c);
        return Ok(());
    }
    for i in 0..n {
        if let Some(p) = m.nodes[i].parent {
            if !alive[p] {
                m.nodes[i].parent = None;
            }
        }
    }
    let root_first = m.nodes[idx[0]].parent.is_none();
    let got: Vec<String> = c.iter().map(|x| x.joint().name.clone()).collect();
    ensure!(
        got == idx.iter().map(|i| names[*i].clone()).collect::<Vec<_>>(),
        "the chain now contains {:?}",
        got
    );
    for (k, x) in c.iter().enumerate() {
        let p = x.parent().map(|p| p.joint().name.clone());
        let want = m.nodes[idx[k]].parent.map(|p| names[p].clone());
        ensure!(p == want, "parent of {} is now {:?} instead of {:?}", got[k], p, want);
    }
    let tol = tol::<T>(&m) * 4.;
    let mov: Vec<usize> = idx.iter().copied().filter(|i| m.nodes[*i].kind.movable()).collect();
    for round in 0..3 {
        let qs: Vec<f64> = (0..mov.len()).map(|x| 0.25 * ((x * 3 + round) % 7) as f64 - 0.5).collect();
        let w: Vec<T> = qs.iter().map(|x| T::of(*x)).collect();
        let driven_from_outside = mov.iter().any(|i| matches!(m.nodes[*i].mimic, Some((d, _, _)) if !alive[d]));
        if driven_from_outside {
            // the driver is gone: what commands to its follower do is not specified
            ctx.count("driver dropped");
            break;
        }
        if round < 2 {
            c.set_joint_positions(&w).map_err(|e| format!("{:?}", e))?;
        } else {
            c.set_joint_positions_clamped(&w);
        }
        for (i, q) in mov.iter().zip(qs.iter()) {
            if m.nodes[*i].mimic.is_none() {
                let wr = m.checked(*i, *q).ok_or("model refuses")?;
                m.apply(&wr);
            }
        }
        ctx.step();
        let want: Vec<T> = mov.iter().map(|i| T::of(m.nodes[*i].q)).collect();
        ensure!(c.joint_positions() == want, "positions are {:?} instead of {:?}", c.joint_positions(), want);
        let got = c.update_transforms();
        for (k, i) in idx.iter().enumerate() {
            check_pose(&format!("pose of {} after the drop", names[*i]), &got[k], &m.world(*i), tol)?;
            let t = c.iter().nth(k).unwrap().world_transform().ok_or("no pose")?;
            check_pose(&format!("reported pose of {} after the drop", names[*i]), &t, &m.world(*i), tol)?;
        }
        if let Some(s) = &s {
            check_pose("end pose after the drop", &s.end_transform(), &m.along(&idx), tol)?;
        }
        let vel = c.update_velocities();
        for (k, i) in idx.iter().enumerate() {
            let (v, w) = m.velocity(*i);
            let a: V3 = [vel[k].translation[0].d(), vel[k].translation[1].d(), vel[k].translation[2].d()];
            let b: V3 = [vel[k].rotation[0].d(), vel[k].rotation[1].d(), vel[k].rotation[2].d()];
            ensure!(
                norm(sub(a, v)) <= tol * 30. && norm(sub(b, w)) <= tol * 30.,
                "velocity of {} after the drop: {:?} {:?} instead of {:?} {:?}",
                names[*i],
                a,
                b,
                v,
                w
            );
        }
        ctx.state_hash(m.key());
    }
    if root_first && m.nodes.iter().all(|x| x.mimic.map_or(true, |t| alive[t.0])) {
        ctx.count("complete");
    } else {
        ctx.count("cut off");
    }
    teardown(c);
    Ok(())
}
/// forgets the robot without taking it apart
fn drop_robot<T: Sc>(mut r: Robot<T>) {
    r.0.clear();
}
fn teardown<T: Sc>(c: &Chain<T>) {
    let mut v: Vec<Node<T>> = vec![];
    for n in c.iter() {
        for x in n.iter_descendants() {
            v.push(x);
        }
    }
    drop(Robot(v));
}
/// some robots have joints with the same name, or with the same name and origin
fn alike(m: &mut Model, code: usize) {
    for i in 0..m.nodes.len() {
        match code {
            1 => m.nodes[i].name = format!("pair{}", i / 2),
            2 | 3 => m.nodes[i].name = "same".into(),
            _ => {}
        }
        if code > 0 {
            m.nodes[i].link = palette_link(i, (i + code) % 4);
        }
        if code == 3 {
            m.nodes[i].org = m.nodes[0].org;
            m.nodes[i].q = if m.nodes[i].kind.movable() { 0.25 } else { 0. };
            m.nodes[i].kind = match m.nodes[i].kind {
                Kind::Fixed => Kind::Fixed,
                Kind::Rot(_) => Kind::Rot([0., 1., 0.]),
                Kind::Lin(_) => Kind::Lin([0., 1., 0.]),
            };
        }
    }
}
fn c13(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let mut s = vec![];
    for n in 1..=(if q { 5 } else { 6 }) {
        let sh = shapes(n);
        let kinds = if n <= 4 { 3u64.pow(n as u32) } else { 27 };
        let len = sh.len() as u64 * kinds * N_MIM4 as u64;
        let sh2 = sh.clone();
        let robot = move |i: u64| {
            let mut d = Dec(i);
            let sh = d.pick(&sh2).clone();
            let k = d.take(kinds as usize) as u64;
            let ks = if n <= 4 { kinds3(n, k) } else { kinds3(n, k * 7 + k / 3 + 40) };
            let mut m = tree(&sh, &ks, 0);
            with_mimics(&mut m, d.take(N_MIM4));
            for x in m.nodes.iter_mut() {
                x.q = (x.q * 8.).round() / 8.;
            }
            // joints may share names and everything else
            alike(&mut m, (i % 4) as usize);
            m
        };
        let r2 = robot.clone();
        s.push(space(
            &format!("share{}", n),
            len,
            "trees x kinds x mimic relations: every view is written through, every view and node is read",
            move |i, ctx| {
                let m = robot(i);
                ctx.note(|| m.describe());
                c13_share::<f64>(&m, ctx)?;
                if n <= 4 {
                    c13_share::<f32>(&m, ctx)?;
                }
                Ok(())
            },
        ));
        s.push(space(
            &format!("drop{}", n),
            len,
            "trees x kinds x mimic relations: every view is the only one kept, in three orders of dropping",
            move |i, ctx| {
                let m = r2(i);
                ctx.note(|| m.describe());
                for v in views(&m) {
                    for order in 0..3 {
                        c13_drop::<f64>(&m, v, false, order, ctx)?;
                    }
                    c13_drop::<f64>(&m, v, true, 0, ctx)?;
                    if n <= 3 {
                        c13_drop::<f32>(&m, v, true, 1, ctx)?;
                    }
                }
                Ok(())
            },
        ));
    }
    s.push(space("large", prod(&[4, 4, 4, 4]), "chains, stars, binary trees and combs of 9, 18, 70 and 150 joints x kinds x equal names: written and read through views, and kept alone", |i, ctx| {
        let mut d = Dec(i);
        let n = [9usize, 18, 70, 150][d.take(4)];
        let shape = d.take(4);
        let kp = d.take(4);
        let sh: Vec<Option<usize>> = (0..n)
            .map(|i| if i == 0 { None } else { Some([i - 1, 0, (i - 1) / 2, i - 1 - (i + 1) % 2][shape]) })
            .collect();
        let kinds: Vec<u8> = (0..n).map(|i| [[1, 1, 1, 1], [1, 2, 0, 1], [2, 0, 0, 2], [0, 1, 2, 0]][kp][i % 4]).collect();
        let mut m = tree(&sh, &kinds, 0);
        for x in m.nodes.iter_mut() {
            x.q = (x.q * 8.).round() / 8.;
        }
        alike(&mut m, d.take(4));
        ctx.note(|| m.describe());
        let mut vs: Vec<View> = views(&m);
        if vs.len() > 12 {
            let k = vs.len() / 8;
            vs = vs.into_iter().step_by(k).collect();
        }
        for (k, v) in vs.into_iter().enumerate() {
            c13_drop::<f64>(&m, v, false, k % 3, ctx)?;
            c13_drop::<f64>(&m, v, true, 0, ctx)?;
        }
        c13_share::<f64>(&m, ctx)
    }));
    Check {
        id: "C13",
        spaces: s,
        assumptions: vec![
            "a follower whose driver has been dropped, and a chain cut off from its root, are only checked for what the property says of them",
        ],
    }
}

// ---------------------------------------------------------------- C14

fn c14_robot<T: Sc>(m: &Model, ctx: &mut Ctx) -> Result<(), String> {
    let all: Vec<usize> = (0..m.nodes.len()).collect();
    c14_chosen::<T>(m, &all, ctx)
}
fn c14_chosen<T: Sc>(m: &Model, some: &[usize], ctx: &mut Ctx) -> Result<(), String> {
    let nodes = build::<T>(m);
    let n = m.nodes.len();
    for r in some.iter().copied() {
        let c = Chain::from_root(nodes[r].clone());
        let idx = indices(&nodes, &c);
        let want = m.subtree(r).iter().all(|i| m.children(*i).len() <= 1);
        let dof = c.dof();
        match SerialChain::try_new(c) {
            Some(s) => {
                ensure!(want, "the tree below {} is branched but accepted", r);
                ensure!(indices(&nodes, &s) == idx, "the accepted chain has other joints");
                ensure!(s.dof() == dof, "the accepted chain has dof {}", s.dof());
                let end = *idx.last().unwrap();
                ensure!(m.children(end).is_empty() && idx == view_nodes(m, View::Part(end, r)), "not the path: {:?}", idx);
                let back = s.unwrap();
                ensure!(indices(&nodes, &back) == idx, "unwrapping changes the chain");
                ctx.count("accepted");
            }
            None => {
                ensure!(!want, "the tree below {} is not branched but refused", r);
                ctx.count("refused");
            }
        }
        ctx.state();
    }
    let stranger = Node::new(joint::<T>(&palette_node(3, 1, 1)));
    for e in some.iter().copied() {
        let s = SerialChain::from_end(&nodes[e]);
        ensure!(indices(&nodes, &s) == m.path(e), "from_end({}) contains {:?}", e, indices(&nodes, &s));
        ensure!(
            indices(&nodes, &Chain::from_end(&nodes[e])) == m.path(e),
            "the chain from end {} contains {:?}",
            e,
            indices(&nodes, &Chain::from_end(&nodes[e]))
        );
        for r in some.iter().copied().chain([n]) {
            let root = if r == n { &stranger } else { &nodes[r] };
            let s = SerialChain::from_end_to_root(&nodes[e], root);
            let want = if r == n { m.path(e) } else { view_nodes(m, View::Part(e, r)) };
            let got = indices(&nodes, &s);
            ensure!(got == want, "from_end_to_root({}, {}) contains {:?} instead of {:?}", e, r, got, want);
            let c = Chain::from_end_to_root(&nodes[e], root);
            let got = indices(&nodes, &c);
            ensure!(got == want, "the chain from {} to {} contains {:?} instead of {:?}", e, r, got, want);
            let dof = want.iter().filter(|i| m.nodes[**i].kind.movable()).count();
            ensure!(s.dof() == dof && c.dof() == dof, "dof {} {} instead of {}", s.dof(), c.dof(), dof);
            ctx.state();
        }
    }
    Ok(())
}
fn c14(t: Tier) -> Check {
    let max = if t == Tier::Quick { 7 } else { 8 };
    let mut s = vec![space("empty", 2, "the empty chain, f64 and f32", |i, ctx| {
        // an empty chain is not branched
        let ok = if i == 0 {
            SerialChain::try_new(Chain::<f64>::from_nodes(vec![])).map_or(false, |s| s.dof() == 0 && s.iter().count() == 0)
        } else {
            SerialChain::try_new(Chain::<f32>::from_nodes(vec![])).map_or(false, |s| s.dof() == 0 && s.iter().count() == 0)
        };
        ensure!(ok, "an empty chain is not converted");
        ctx.state();
        Ok(())
    })];
    for n in 1..=max {
        let sh = shapes(n);
        s.push(space(
            &format!("trees{}", n),
            sh.len() as u64 * 5 * 4,
            "all trees x joint kinds x names and origins, distinct or alike; every node as end and root",
            move |i, ctx| {
                let mut d = Dec(i);
                let sh = d.pick(&sh).clone();
                let kc = d.take(5);
                let kinds: Vec<u8> = (0..n).map(|i| [[1, 2, 0], [0, 0, 0], [1, 1, 1], [0, 2, 1], [2, 1, 0]][kc][i % 3]).collect();
                let mut m = tree(&sh, &kinds, 0);
                alike(&mut m, d.take(4));
                ctx.note(|| m.describe());
                c14_robot::<f64>(&m, ctx)?;
                if n <= 5 {
                    c14_robot::<f32>(&m, ctx)?;
                }
                Ok(())
            },
        ));
    }
    s.push(space("large", prod(&[6, 6, 4]), "chains, stars, binary trees, combs, chains that fork at the end and chains that fork at the start, of 9 to 300 joints: chosen ends and roots", |i, ctx| {
        let mut d = Dec(i);
        let n = [9usize, 17, 34, 70, 150, 300][d.take(6)];
        let shape = d.take(6);
        let sh: Vec<Option<usize>> = (0..n)
            .map(|i| if i == 0 { None } else { Some([i - 1, 0, (i - 1) / 2, i - 1 - (i + 1) % 2, if i + 1 == n { i - 2 } else { i - 1 }, if i == n - 1 { 0 } else { i - 1 }][shape]) })
            .collect();
        let kinds: Vec<u8> = (0..n).map(|i| [1, 2, 0][i % 3]).collect();
        let mut m = tree(&sh, &kinds, 0);
        alike(&mut m, d.take(4));
        ctx.note(|| m.describe());
        let mut some = vec![0, 1, 2, 7, 8, n / 3, n / 2, n - 3, n - 2, n - 1];
        some.sort_unstable();
        some.dedup();
        c14_chosen::<f64>(&m, &some, ctx)
    }));
    // trees that have been changed
    let len = 3u64.pow(6) * 64;
    s.push(space("history", len, "4 nodes after all sequences of 3 attachments/detachments", move |i, ctx| {
        let mut d = Dec(i);
        let mut t = Tree::new(4);
        let m0 = tree(&[None, None, None, None], &[1, 0, 2, 1], 0);
        let nodes = build::<f64>(&m0);
        for _ in 0..3 {
            let c = d.take(4);
            let p = (c + 1 + d.take(3)) % 4;
            let det = d.take(3) == 2;
            ctx.note(|| format!("{} {} {}", c, p, det));
            if det {
                nodes[c].remove_parent(&nodes[p]);
                t.apply(Op::Detach(c, p));
            } else if t.attach(c, p) {
                nodes[c].set_parent(&nodes[p]);
            }
            ctx.step();
        }
        let mut m = m0.clone();
        for i in 0..4 {
            m.nodes[i].parent = t.parent[i];
        }
        for r in 0..4 {
            let c = Chain::from_root(nodes[r].clone());
            let want = m.subtree(r).iter().all(|i| m.children(*i).len() <= 1);
            let got = SerialChain::try_new(c);
            ensure!(got.is_some() == want, "below {}: accepted is {}", r, got.is_some());
            for e in 0..4 {
                let s = SerialChain::from_end_to_root(&nodes[e], &nodes[r]);
                let want = view_nodes(&m, View::Part(e, r));
                ensure!(indices(&nodes, &s) == want, "({}, {}) contains {:?}", e, r, indices(&nodes, &s));
            }
            ctx.state();
        }
        Ok(())
    }));
    Check {
        id: "C14",
        spaces: s,
        assumptions: vec![],
    }
}

// ---------------------------------------------------------------- C15

/// names that no one may cut: they differ at the end, or at the start, and are longer than any column
fn long_names(m: &mut Model, code: usize) {
    let n = m.nodes.len();
    for (i, x) in m.nodes.iter_mut().enumerate() {
        x.name = match code {
            0 => x.name.clone(),
            1 => format!("the_same_beginning_of_every_one_of_the_names_{}", i),
            2 => format!("{}_and_the_same_end_of_every_one_of_the_names_of_this_robot", n - i),
            // lengths from 1 to 130
            3 => format!("{}{}", "x".repeat((i * 17) % 130), i),
            // equal names: of all, and of two each
            4 => "joint".to_string(),
            5 => format!("j{}", i / 2),
            _ => format!("関節_{}_Ω/é{}", "ß".repeat((i * 7) % 40), i),
        };
    }
}
fn c15_print<T: Sc>(m: &Model, order: &[Vec<usize>], nodes: &[Node<T>], ctx: &mut Ctx) -> Result<(), String> {
    for v in all_views(m) {
        let c = view(nodes, v);
        let inside = view_nodes(m, v);
        let first = inside[0];
        let before = snapshot(nodes);
        let mut texts = vec![format!("{}", c), format!("{}", c)];
        match v {
            View::End(e) => texts.push(format!("{}", serial(nodes, e, None))),
            View::Part(e, r) => texts.push(format!("{}", serial(nodes, e, Some(r)))),
            View::Tree(_) | View::Pick(_) | View::Rev(_) => {}
        }
        if let Some(x) = first_diff(&before, &snapshot(nodes)) {
            return Err(format!("{:?}: printing changes a node: {}", v, x));
        }
        // expected order: depth first, children in attachment order
        let mut want: Vec<(usize, usize)> = vec![];
        fn walk(i: usize, depth: usize, order: &[Vec<usize>], inside: &[usize], out: &mut Vec<(usize, usize)>) {
            if inside.contains(&i) {
                out.push((i, depth));
            }
            for c in &order[i] {
                walk(*c, depth + 1, order, inside, out);
            }
        }
        walk(first, 0, order, &inside, &mut want);
        for text in texts {
            ctx.note(|| format!("{:?}:\n{}", v, text));
            let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
            ensure!(
                lines.len() == want.len(),
                "{:?}: {} lines for {} nodes:\n{}",
                v,
                lines.len(),
                want.len(),
                text
            );
            let mut widths: Vec<Option<usize>> = vec![None; m.nodes.len() + 1];
            // the order is determined: a parent before its children, each subtree one block, siblings as attached
            for (l, (i, depth)) in lines.iter().zip(want.iter().copied()) {
                let body = l.trim_start();
                let name = m.nodes[i].name.as_str();
                ensure!(
                    body.split_whitespace().next() == Some(name),
                    "{:?}: line {:?} instead of node {} ({}), which is its place:\n{}",
                    v,
                    l,
                    i,
                    name,
                    text
                );
                let w = l.len() - body.len();
                match widths[depth] {
                    None => widths[depth] = Some(w),
                    Some(x) => ensure!(x == w, "{:?}: depth {} is indented by {} and {}:\n{}", v, depth, x, w, text),
                }
                let ty = format!("{}", jt::<T>(&m.nodes[i].kind));
                ensure!(body.contains(&ty), "{:?}: line {:?} does not show type {}", v, l, ty);
                for x in 0..m.nodes.len() {
                    let name = format!("link{}", x);
                    let has = m.nodes[i].link.as_ref().map_or(false, |y| y.name == name);
                    ensure!(body.contains(&name) == has, "{:?}: line {:?} and link {}", v, l, name);
                }
            }
            ensure!(widths[0] == Some(0) || widths[0].is_none(), "{:?}: the first node is indented", v);
            let known: Vec<usize> = widths.iter().flatten().copied().collect();
            ensure!(known.windows(2).all(|w| w[0] < w[1]), "{:?}: deeper nodes are not indented more: {:?}\n{}", v, widths, text);
            ctx.state();
        }
    }
    Ok(())
}
fn c15(t: Tier) -> Check {
    let max = if t == Tier::Quick { 6 } else { 7 };
    let mut s = vec![
        space("empty", 2, "the empty chain", |i, ctx| {
            ctx.state();
            let text = if i == 0 {
                format!("{}", Chain::<f64>::from_nodes(vec![]))
            } else {
                format!("{}", SerialChain::new_unchecked(Chain::<f32>::from_nodes(vec![])))
            };
            ensure!(text.trim().is_empty(), "the empty chain is printed as {:?}", text);
            Ok(())
        }),
        space("types", 1, "types are told apart: kinds and signed principal axes", |_, ctx| {
            let mut all = vec![format!("{}", jt::<f64>(&Kind::Fixed))];
            for a in AXES[..6].iter() {
                all.push(format!("{}", jt::<f64>(&Kind::Rot(*a))));
                all.push(format!("{}", jt::<f64>(&Kind::Lin(*a))));
            }
            for a in AXES[6..].iter() {
                let (r, l) = (format!("{}", jt::<f64>(&Kind::Rot(*a))), format!("{}", jt::<f64>(&Kind::Lin(*a))));
                ensure!(r != l && !all.contains(&r) && !all.contains(&l), "{} {}", r, l);
            }
            for i in 0..all.len() {
                for j in 0..i {
                    ensure!(all[i] != all[j], "two types are printed as {}", all[i]);
                }
            }
            for (k, a) in ["X", "Y", "Z"].iter().enumerate() {
                ensure!(format!("{}", jt::<f64>(&Kind::Rot(AXES[k]))).contains(a), "axis {} is not shown", a);
                ensure!(format!("{}", jt::<f64>(&Kind::Lin(AXES[k + 3]))).contains(a), "axis -{} is not shown", a);
            }
            ctx.state();
            Ok(())
        }),
    ];
    for n in 1..=max {
        let sh = shapes(n);
        let kinds = if n <= 4 { 3usize.pow(n as u32) } else { 9 };
        s.push(space(
            &format!("trees{}", n),
            prod(&[sh.len(), kinds, 4, 3]),
            "trees x kinds x links x attachment orders, every view",
            move |i, ctx| {
                let mut d = Dec(i);
                let sh = d.pick(&sh).clone();
                let kc = d.take(kinds) as u64;
                let kinds = kinds3(n, if n <= 4 { kc } else { kc * 31 + 77 });
                let mut m = tree(&sh, &kinds, 2);
                let lc = d.take(4);
                for i in 0..n {
                    let code = [[0, 0, 0, 0], [1, 1, 1, 1], [1, 0, 2, 0], [0, 3, 0, 1]][lc][i % 4];
                    m.nodes[i].link = palette_link(i, code);
                }
                let oc = d.take(3);
                long_names(&mut m, ((i / 7) % 7) as usize);
                ctx.note(|| format!("order {}\n{}", oc, m.describe()));
                let mut bare = m.clone();
                for x in bare.nodes.iter_mut() {
                    x.parent = None;
                }
                let nodes = build::<f64>(&bare);
                let mut order: Vec<Vec<usize>> = vec![vec![]; n];
                let mut idx: Vec<usize> = (0..n).collect();
                match oc {
                    0 => {}
                    1 => idx.reverse(),
                    _ => idx.rotate_left(n / 2),
                }
                for i in idx {
                    if let Some(p) = m.nodes[i].parent {
                        nodes[i].set_parent(&nodes[p]);
                        order[p].push(i);
                    }
                }
                c15_print::<f64>(&m, &order, &nodes, ctx)?;
                // one node moved: detached, and attached to the root
                if n > 2 {
                    let x = n - 1;
                    let p = m.nodes[x].parent.unwrap();
                    if p != 0 {
                        nodes[x].set_parent(&nodes[0]);
                        order[p].retain(|y| *y != x);
                        order[0].push(x);
                        m.nodes[x].parent = Some(0);
                        ctx.step();
                        c15_print::<f64>(&m, &order, &nodes, ctx)?;
                    }
                }
                Ok(())
            },
        ));
    }
    for n in 2..=(if t == Tier::Quick { 5 } else { 6 }) {
        let sh = shapes(n);
        let moves = n * (n + 1);
        s.push(space(
            &format!("moves{}", n),
            prod(&[sh.len(), moves, moves]),
            "trees x two moves of any node (detached, or attached to any node that is listed before it), printed before and after each",
            move |i, ctx| {
                let mut d = Dec(i);
                let sh = d.pick(&sh).clone();
                let mut m = tree(&sh, &kinds3(n, i % 13), 2);
                long_names(&mut m, (i % 7) as usize);
                let nodes = build::<f64>(&m);
                let mut order: Vec<Vec<usize>> = (0..n).map(|i| m.children(i)).collect();
                for step in 0..2 {
                    let (x, p) = (d.take(n), d.take(n + 1));
                    // the model lists parents before their children
                    if m.nodes[x].parent == Some(p) || (p < n && p >= x) {
                        return Ok(());
                    }
                    ctx.note(|| format!("move {}: {} to {}\n{}", step, x, p, m.describe()));
                    if let Some(o) = m.nodes[x].parent {
                        if p == n || step == 1 {
                            nodes[x].remove_parent(&nodes[o]);
                        }
                        order[o].retain(|y| *y != x);
                        m.nodes[x].parent = None;
                    }
                    if p < n {
                        nodes[x].set_parent(&nodes[p]);
                        order[p].push(x);
                        m.nodes[x].parent = Some(p);
                    }
                    ctx.step();
                    c15_print::<f64>(&m, &order, &nodes, ctx)?;
                }
                Ok(())
            },
        ));
    }
    let lens: Vec<usize> = if t == Tier::Quick { vec![8, 11, 16, 24, 34] } else { vec![8, 9, 10, 11, 12, 16, 17, 24, 32, 33, 34, 48, 66] };
    s.push(space("deep", (lens.len() * 4 * 7) as u64, "long chains and combs x short, long and equal names", move |i, ctx| {
        let mut d = Dec(i);
        let n = *d.pick(&lens);
        let comb = d.take(4);
        // every third, second or no node is a leaf
        let mut sh: Vec<Option<usize>> = vec![None];
        let mut last = 0;
        for i in 1..n {
            sh.push(Some(last));
            if comb == 0 || i % (comb + 1) != 0 {
                last = i;
            }
        }
        let mut m = tree(&sh, &kinds3(n, 12345 * (1 + comb as u64)), 2);
        long_names(&mut m, d.take(7));
        let nodes = build::<f64>(&m);
        let order: Vec<Vec<usize>> = (0..n).map(|i| m.children(i)).collect();
        c15_print::<f64>(&m, &order, &nodes, ctx)
    }));
    Check {
        id: "C15",
        spaces: s,
        assumptions: vec!["names without white space"],
    }
}

fn main() {
    main_with(|id, t| match id {
        "C11" => Some(c11(t)),
        "C12" => Some(c12(t)),
        "C13" => Some(c13(t)),
        "C14" => Some(c14(t)),
        "C15" => Some(c15(t)),
        _ => None,
    })
}
