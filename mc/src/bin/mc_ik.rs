//! C16-C20, C29: inverse kinematics.
use k::{Chain, Constraints, Error, InverseKinematicsSolver, JacobianIkSolver, Node, SerialChain};
use kmc::ensure;
use kmc::fw::*;
use kmc::model::*;
use kmc::real::*;
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- arms

struct Arm {
    name: &'static str,
    m: Model,
    end: usize,
    root: Option<usize>,
    /// nodes of the path which are left out
    gap: &'static [usize],
    /// configurations of all joints to start from
    starts: Vec<Vec<f64>>,
}
const X: V3 = [1., 0., 0.];
const Y: V3 = [0., 1., 0.];
const Z: V3 = [0., 0., 1.];
fn nd(name: &str, kind: Kind, t: V3, parent: Option<usize>) -> MNode {
    MNode {
        name: name.into(),
        kind,
        org: Org { t, ..Org::ID },
        q: 0.,
        qd: 0.,
        limits: None,
        parent,
        link: None,
        mimic: None,
    }
}
fn chain_of(v: &[(&str, Kind, V3)]) -> Model {
    Model {
        nodes: v
            .iter()
            .enumerate()
            .map(|(i, (n, k, t))| nd(n, *k, *t, if i == 0 { None } else { Some(i - 1) }))
            .collect(),
    }
}
fn arm6() -> Model {
    chain_of(&[
        ("shoulder_pitch", Kind::Rot(Y), [0.; 3]),
        ("shoulder_roll", Kind::Rot(X), [0., 0.1, 0.]),
        ("shoulder_yaw", Kind::Rot(Z), [0., 0., -0.3]),
        ("elbow_pitch", Kind::Rot(Y), [0., 0., -0.15]),
        ("wrist_yaw", Kind::Rot(Z), [0., 0., -0.15]),
        ("wrist_pitch", Kind::Rot(Y), [0., 0., -0.15]),
    ])
}
fn arm7() -> Model {
    let mut m = arm6();
    m.nodes.push(nd("wrist_roll", Kind::Rot(X), [0., 0., -0.1], Some(5)));
    m
}
fn with(mut m: Model, f: impl FnOnce(&mut Model)) -> Model {
    f(&mut m);
    m
}
fn arms() -> Vec<Arm> {
    let s6 = vec![
        vec![0.8, 0.2, 0.0, -1.2, 0.0, 0.1],
        vec![0.3, -0.4, 0.5, -0.9, 0.7, -0.6],
        vec![0.; 6],
        vec![-1.0, 0.6, -0.8, 1.4, -0.5, 0.9],
    ];
    let s7: Vec<Vec<f64>> = [
        [0.8, 0.2, 0.1, -1.5, 0.1, -0.3, 0.2],
        [0.3, -0.4, 0.5, -0.9, 0.7, -0.6, 0.4],
        [0.; 7],
        [-0.6, 0.5, -0.7, 1.2, -0.4, 0.8, -0.9],
    ]
    .iter()
    .map(|x| x.to_vec())
    .collect();
    let lim = |m: &mut Model, w: f64| {
        for (i, n) in m.nodes.iter_mut().enumerate() {
            n.limits = Some((-w - 0.1 * i as f64, w + 0.05 * i as f64));
        }
    };
    vec![
        Arm { name: "six", m: arm6(), end: 5, root: None, gap: &[], starts: s6.clone() },
        // the same without its hand
        Arm { name: "five", m: arm6(), end: 4, root: None, gap: &[], starts: s6.clone() },
        Arm { name: "seven", m: arm7(), end: 6, root: None, gap: &[], starts: s7.clone() },
        Arm {
            name: "six with limits",
            m: with(arm6(), |m| lim(m, 1.5)),
            end: 5,
            root: None,
            gap: &[],
            starts: s6.clone(),
        },
        Arm {
            name: "planar",
            m: chain_of(&[
                ("p0", Kind::Rot(Z), [0., 0., 0.2]),
                ("p1", Kind::Rot(Z), [0.5, 0., 0.]),
                ("p2", Kind::Rot(Z), [0.4, 0., 0.]),
                ("p3", Kind::Rot(Z), [0.3, 0., 0.]),
                ("tip", Kind::Fixed, [0.2, 0., 0.]),
            ]),
            end: 4,
            root: None,
            gap: &[],
            starts: vec![
                vec![0.3, 0.6, -0.9, 0.5, 0.],
                vec![0.; 5],
                vec![1.2, -0.8, 0.7, 0.9, 0.],
                vec![-2.0, 1.1, 0.6, -0.4, 0.],
            ],
        },
        Arm {
            name: "gantry",
            m: chain_of(&[
                ("lx", Kind::Lin(X), [0.; 3]),
                ("ly", Kind::Lin(Y), [0., 0., 0.1]),
                ("lz", Kind::Lin([0., 0., -1.]), [0.1, 0., 0.]),
                ("rz", Kind::Rot(Z), [0., 0., -0.2]),
                ("ry", Kind::Rot(Y), [0., 0.05, 0.]),
                ("rx", Kind::Rot(X), [0.1, 0., 0.]),
                ("tool", Kind::Fixed, [0., 0.05, 0.15]),
            ]),
            end: 6,
            root: None,
            gap: &[],
            starts: vec![
                vec![0.1, -0.2, 0.3, 0.4, -0.5, 0.6, 0.],
                vec![0.; 7],
                vec![-0.5, 0.4, 0.2, -1.2, 0.7, -0.4, 0.],
                vec![1.0, 1.0, -1.0, 2.0, 0.3, 1.1, 0.],
            ],
        },
        // starts below the root; the part above moves, and there are branches
        Arm {
            name: "below the root",
            m: with(
                chain_of(&[
                    ("base", Kind::Rot([1., 1., 0.]), [0.3, 0.2, 1.0]),
                    ("lift", Kind::Lin(Z), [0., 0.1, 0.2]),
                    ("a0", Kind::Rot(Y), [0.1, 0., 0.]),
                    ("a1", Kind::Rot(X), [0., 0.1, 0.]),
                    ("a2", Kind::Rot(Z), [0., 0., -0.3]),
                    ("bracket", Kind::Fixed, [0.05, 0., -0.05]),
                    ("a3", Kind::Rot(Y), [0., 0., -0.15]),
                    ("a4", Kind::Rot([0., 1., 1.]), [0., 0., -0.15]),
                    ("a5", Kind::Rot(X), [0., 0., -0.15]),
                    ("a6", Kind::Lin(Y), [0.1, 0., -0.1]),
                ]),
                |m| {
                    m.nodes[0].org.axis = [0., 1., 0.];
                    m.nodes[0].org.angle = 0.7;
                    m.nodes[5].org.axis = [1., 0., 0.];
                    m.nodes[5].org.angle = 0.4;
                    let mut b = nd("branch", Kind::Rot(Z), [0.2, 0., 0.], Some(3));
                    b.q = 0.4;
                    m.nodes.push(b);
                    m.nodes.push(nd("branch2", Kind::Lin(X), [0.2, 0., 0.], Some(10)));
                },
            ),
            end: 9,
            root: Some(2),
            gap: &[],
            starts: vec![
                vec![0.5, 0.3, 0.8, 0.2, 0.1, 0., -1.1, 0.2, -0.3, 0.1, 0.4, 0.2],
                vec![-0.7, -0.2, 0.3, -0.4, 0.5, 0., -0.9, 0.7, -0.6, -0.2, 0.1, 0.3],
                vec![0.2, 0.1, 0., 0., 0., 0., 0., 0., 0., 0., 0.7, 0.1],
            ],
        },
        // links of two centimetres
        Arm {
            name: "finger",
            m: chain_of(&[
                ("knuckle_yaw", Kind::Rot(Z), [0.; 3]),
                ("knuckle", Kind::Rot(Y), [0.005, 0., 0.]),
                ("middle", Kind::Rot(Y), [0.02, 0., 0.]),
                ("distal", Kind::Rot(Y), [0.02, 0., 0.]),
                ("nail", Kind::Fixed, [0.02, 0., 0.]),
            ]),
            end: 4,
            root: None,
            gap: &[],
            starts: vec![
                vec![0.2, 0.5, 0.9, 0.7, 0.],
                vec![-0.3, -0.4, 1.2, 0.3, 0.],
                vec![0.; 5],
                vec![0.1, 0.3, -0.8, 1.1, 0.],
            ],
        },
        // links of six and eight millimetres
        Arm {
            name: "tweezers",
            m: chain_of(&[
                ("t0", Kind::Rot(Z), [0.; 3]),
                ("t1", Kind::Rot(Z), [0.006, 0., 0.]),
                ("t2", Kind::Fixed, [0.006, 0.005, 0.]),
            ]),
            end: 2,
            root: None,
            gap: &[],
            starts: vec![vec![0.4, 0.6, 0.], vec![-0.9, 0.9, 0.], vec![1.4, -1.9, 0.]],
        },
        // two-jointed, linear and rotational
        Arm {
            name: "short",
            m: chain_of(&[("s0", Kind::Lin(X), [0.; 3]), ("s1", Kind::Rot(Z), [0.2, 0., 0.]), ("s2", Kind::Fixed, [0., 0.3, 0.])]),
            end: 2,
            root: None,
            gap: &[],
            starts: vec![vec![0.2, 0.4, 0.], vec![0.; 3], vec![-0.5, 2.0, 0.]],
        },
        Arm {
            name: "no joint",
            m: chain_of(&[("f0", Kind::Fixed, [0.1, 0., 0.]), ("f1", Kind::Fixed, [0.2, 0., 0.])]),
            end: 1,
            root: None,
            gap: &[],
            starts: vec![vec![0.; 2]],
        },
        // mimics: inside the arm, and outside of it following the arm, through another
        Arm {
            name: "mimics",
            m: with(arm7(), |m| {
                m.nodes[4].mimic = Some((2, 0.5, 0.1));
                m.nodes.push(nd("finger", Kind::Lin(X), [0.1, 0., 0.], Some(6)));
                m.nodes.push(nd("finger2", Kind::Lin(X), [-0.1, 0., 0.], Some(6)));
                m.nodes[7].mimic = Some((5, 0.02, 0.01));
                m.nodes[8].mimic = Some((7, -1.0, 0.0));
                m.nodes[0].limits = Some((-2.0, 2.0));
                m.nodes[4].limits = Some((-1.0, 1.0));
            }),
            end: 6,
            root: None,
            gap: &[],
            starts: vec![
                vec![0.8, 0.2, 0.1, -1.5, 0.15, -0.3, 0.2, 0.004, -0.004],
                // out of step with the drivers
                vec![0.3, -0.4, 0.5, -0.9, 0.7, -0.6, 0.4, 0.5, 0.25],
                vec![-0.6, 0.5, -0.7, 1.2, -0.25, 0.8, -0.9, 0.026, -0.026],
            ],
        },
        // a joint of the arm follows one outside; starts outside of its limits
        Arm {
            name: "driven from outside",
            m: with(arm7(), |m| {
                m.nodes.push(nd("lever", Kind::Rot(Z), [0.1, 0., 0.], Some(0)));
                m.nodes[3].mimic = Some((7, 1.0, 0.0));
                for i in [1, 2, 5] {
                    m.nodes[i].limits = Some((-0.5, 0.5));
                }
            }),
            end: 6,
            root: None,
            gap: &[],
            starts: vec![
                vec![0.8, 0.2, 0.1, -1.5, 0.15, -0.3, 0.2, -1.5],
                vec![0.3, -0.4, 0.7, -0.9, 0.7, -0.6, 0.4, -0.9],
                vec![0.3, 0.4, 0.4, 0.9, 0.7, -0.4, 0.4, 0.25],
            ],
        },
        Arm {
            name: "eight with prismatic",
            m: with(arm7(), |m| {
                m.nodes.push(nd("slide", Kind::Lin([1., 0., 1.]), [0., 0.05, -0.05], Some(6)));
                lim(m, 2.0);
            }),
            end: 7,
            root: None,
            gap: &[],
            starts: vec![
                vec![0.8, 0.2, 0.1, -1.5, 0.1, -0.3, 0.2, 0.1],
                vec![0.3, -0.4, 0.5, -0.9, 0.7, -0.6, 0.4, -0.2],
                // outside of the limits
                vec![3.0, -0.4, 0.5, -2.9, 0.7, -0.6, 0.4, 5.0],
            ],
        },
    ]
}
/// Arms of very many joints, of one, with joints left out, with limits on one side only
fn rare_arms() -> Vec<Arm> {
    fn long(n: usize, kinds: &[Kind], t: V3, every: usize) -> Model {
        let mut m = Model::default();
        for i in 0..n {
            // some fixed ones in between
            let fixed = every > 0 && i % every == every - 1;
            let k = if fixed { Kind::Fixed } else { kinds[i % kinds.len()] };
            m.nodes.push(nd(&format!("l{}", i), k, t, i.checked_sub(1)));
        }
        m
    }
    let bent = |n: usize, a: f64| -> Vec<Vec<f64>> {
        vec![
            (0..n).map(|i| a * [1.0, -0.4, 0.7, 0.2, -0.9][i % 5]).collect(),
            (0..n).map(|i| a * [0.3, 0.9, 0.5, -0.2, 0.1, 0.6, 0.8][i % 7]).collect(),
        ]
    };
    let c7 = vec![vec![0.8, 0.2, 0.1, -1.5, 0.1, -0.3, 0.2], vec![0.3, -0.4, 0.5, -0.9, 0.7, -0.6, 0.4]];
    let mut v = vec![];
    v.push(Arm {
        name: "snake of 40",
        m: long(46, &[Kind::Rot(Z), Kind::Rot(Y), Kind::Rot(X), Kind::Lin(Y), Kind::Rot([1., 1., 0.])], [0.1, 0.02, 0.03], 7),
        end: 45,
        root: None,
        gap: &[],
        starts: bent(46, 0.4),
    });
    v.push(Arm {
        name: "snake of 70",
        m: with(long(71, &[Kind::Rot(Z), Kind::Rot(Y)], [0.05, 0., 0.], 0), |m| {
            for n in m.nodes.iter_mut() {
                n.limits = Some((-2.0, 2.0));
            }
        }),
        end: 70,
        root: Some(1),
        gap: &[],
        starts: bent(71, 0.2),
    });
    v.push(Arm {
        name: "snake of 38 with mimics",
        m: with(long(38, &[Kind::Rot(Z), Kind::Rot(Y), Kind::Rot(X)], [0.06, 0., 0.01], 0), |m| {
            m.nodes[35].mimic = Some((1, 0.5, 0.05));
            m.nodes[3].mimic = Some((36, -1.0, 0.));
            m.nodes.push(nd("finger", Kind::Lin(X), [0.1, 0., 0.], Some(37)));
            m.nodes[38].mimic = Some((37, 0.1, 0.));
        }),
        end: 37,
        root: None,
        gap: &[],
        starts: bent(39, 0.3),
    });
    v.push(Arm { name: "seven without its third", m: arm7(), end: 6, root: None, gap: &[2], starts: c7.clone() });
    v.push(Arm { name: "seven without its first and fifth", m: arm7(), end: 6, root: None, gap: &[0, 4], starts: c7.clone() });
    v.push(Arm {
        name: "seven, limits on one side",
        m: with(arm7(), |m| {
            for (i, n) in m.nodes.iter_mut().enumerate() {
                n.limits = [
                    Some((f64::NEG_INFINITY, 1.6)),
                    Some((-1.7, f64::INFINITY)),
                    Some((f64::NEG_INFINITY, f64::INFINITY)),
                    None,
                ][i % 4];
            }
        }),
        end: 6,
        root: None,
        gap: &[],
        starts: c7.clone(),
    });
    for (name, k) in [("one turning", Kind::Rot(Z)), ("one sliding", Kind::Lin([0., 1., 1.]))] {
        v.push(Arm {
            name,
            m: chain_of(&[("f", Kind::Fixed, [0.1, 0.2, 0.]), ("only", k, [0., 0.1, 0.]), ("tip", Kind::Fixed, [0.4, 0., 0.])]),
            end: 2,
            root: None,
            gap: &[],
            starts: vec![vec![0., 0.3, 0.], vec![0., -0.8, 0.]],
        });
    }
    v
}
/// (arm, ignored set, start, target, constrained subset, settings) for the rare arms
type Rare<'a> = (&'a Arm, usize, usize, Target, [bool; 6], Cfg);
fn rare_space(
    targets: &'static [Target],
    cfgs: &'static [usize],
    f: impl Fn(Rare, &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
) -> Space {
    const MASKS: [usize; 12] = [0b111, 0b1, 0b10, 0b100, 0b11, 0b100011, 0b111000, 0b1000, 0b10101, 0b11111, 0b101111, 0b111111];
    let arms = rare_arms();
    let sets = arm_sets(&arms, usize::MAX);
    let len = prod(&[sets.len(), 2, targets.len(), MASKS.len(), cfgs.len()]);
    space(
        "rare",
        len,
        "arms of 1, 36 to 70 joints, with joints left out, with limits on one side x ignored joints x starts x targets x constrained subsets x settings",
        move |i, ctx| {
            let mut d = Dec(i);
            let cfg = CFGS[*d.pick(cfgs)];
            let mask = mask_of(*d.pick(&MASKS));
            let target = *d.pick(targets);
            let start = d.take(2);
            let (ai, ii) = *d.pick(&sets);
            f((&arms[ai], ii, start, target, mask, cfg), ctx)
        },
    )
}
/// Every arm of four nodes (each fixed, turning or sliding along a coordinate axis), every arm of six turning joints;
/// variants: plain; limits on both sides; origins turned; mimics inside of the arm; small; large
fn every_arm(code: usize, variant: usize) -> Arm {
    const K: [Kind; 7] = [Kind::Rot(X), Kind::Rot(Y), Kind::Rot(Z), Kind::Lin(X), Kind::Lin(Y), Kind::Lin(Z), Kind::Fixed];
    const T6: [V3; 6] = [[0., 0., 0.1], [0.3, 0.05, -0.1], [0.1, 0.35, 0.05], [-0.05, 0.1, 0.4], [0.25, -0.1, 0.2], [0.1, 0.2, -0.15]];
    let (n, base) = if code < 7usize.pow(4) { (4, 7) } else { (6, 3) };
    let mut c = if n == 4 { code } else { code - 7usize.pow(4) };
    let mut m = Model::default();
    for i in 0..n {
        m.nodes.push(nd(&format!("e{}", i), K[c % base], T6[i], i.checked_sub(1)));
        c /= base;
    }
    m.nodes.push(nd("tip", Kind::Fixed, [0.15, 0.2, 0.3], Some(n - 1)));
    match variant {
        1 => {
            for (i, x) in m.nodes.iter_mut().enumerate() {
                if x.kind.movable() {
                    x.limits = Some((-0.55 - 0.1 * i as f64, 0.9));
                }
            }
        }
        2 => {
            for (i, x) in m.nodes.iter_mut().enumerate() {
                x.org.axis = unit([1., i as f64, -2.]);
                x.org.angle = 0.7 - 0.9 * i as f64;
            }
        }
        3 => {
            let mov: Vec<usize> = (0..n).filter(|i| m.nodes[*i].kind.movable()).collect();
            if mov.len() > 1 {
                m.nodes[mov[mov.len() - 1]].mimic = Some((mov[0], -0.8, 0.1));
            }
        }
        // hand-sized, and as large as a crane
        4 | 5 => {
            for x in m.nodes.iter_mut() {
                x.org.t = x.org.t.map(|t| t * if variant == 4 { 0.02 } else { 100. });
            }
        }
        _ => {}
    }
    Arm {
        name: "every",
        m,
        end: n,
        root: None,
        gap: &[],
        starts: vec![
            [0.5, -0.4, 0.7, 0.2, -0.6, 0.3, 0.][..n + 1].to_vec(),
            [-0.3, 0.8, 0.45, -0.5, 0.75, 0.6, 0.][..n + 1].to_vec(),
        ],
    }
}
fn every_space(
    t: Tier,
    variants: &'static [usize],
    targets: &'static [Target],
    cfgs: &'static [usize],
    f: impl Fn(Rare, &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
) -> Space {
    const MASKS: [usize; 14] = [0b1, 0b10, 0b100, 0b1000, 0b10000, 0b100000, 0b11, 0b110, 0b111, 0b111000, 0b100011, 0b10101, 0b11111, 0b111111];
    let all: Vec<usize> = if t == Tier::Quick { MASKS.to_vec() } else { (1..64).collect() };
    let sets = if t == Tier::Quick { 2 } else { 12 };
    let arms = 7usize.pow(4) + 3usize.pow(6);
    let len = prod(&[arms, variants.len(), 2, targets.len(), all.len(), cfgs.len(), sets]);
    space(
        "every",
        len,
        "every arm of four nodes of 7 kinds, every arm of six turning joints x variants (limits, turned origins, mimics, small, large) x starts x targets x constrained subsets x settings x ignored joints",
        move |i, ctx| {
            let mut d = Dec(i);
            let ii = d.take(sets);
            let cfg = CFGS[*d.pick(cfgs)];
            let mask = mask_of(*d.pick(&all));
            let target = *d.pick(targets);
            let start = d.take(2);
            let variant = *d.pick(variants);
            let code = d.take(arms);
            let a = every_arm(code, variant);
            // one after the other is left out
            let n = ignored_sets(a.movable().len()).len();
            let ii = if t == Tier::Quick && ii == 1 { 1 + code % n.max(2) } else { ii };
            if ii >= n {
                return Ok(());
            }
            ctx.note(|| format!("variant {} of {:?}", variant, a.m.nodes.iter().map(|x| x.kind).collect::<Vec<_>>()));
            f((&a, ii, start, target, mask, cfg), ctx)
        },
    )
}
impl Arm {
    fn path(&self) -> Vec<usize> {
        let mut p = match self.root {
            None => self.m.path(self.end),
            Some(r) => view_nodes(&self.m, View::Part(self.end, r)),
        };
        p.retain(|i| !self.gap.contains(i));
        p
    }
    fn movable(&self) -> Vec<usize> {
        self.path().into_iter().filter(|i| self.m.nodes[*i].kind.movable()).collect()
    }
    fn at<T: Sc>(&self, start: usize) -> Model {
        let mut m = self.m.clone();
        for (i, q) in self.starts[start % self.starts.len()].iter().enumerate() {
            m.nodes[i].q = if m.nodes[i].kind.movable() { T::of(*q).d() } else { 0. };
        }
        m
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Target {
    Here,
    Near,
    Far,
    Unreachable,
    Origin,
    Turned,
    Released,
    Nan,
    Inf,
    NanRotation,
}
const TARGETS: [Target; 7] = [
    Target::Here,
    Target::Near,
    Target::Far,
    Target::Unreachable,
    Target::Origin,
    Target::Turned,
    Target::Released,
];
fn moved(m: &Model, mov: &[usize], d: f64) -> Model {
    let mut m = m.clone();
    for (k, i) in mov.iter().enumerate() {
        m.nodes[*i].q += d * [1.0, -0.7, 0.5, -0.9, 0.8, -0.4, 0.6, 1.0][k % 8];
    }
    m
}
fn target_pose(m: &Model, path: &[usize], mov: &[usize], t: Target) -> Pose {
    let here = m.along(path);
    match t {
        Target::Near => moved(m, mov, 0.08).along(path),
        Target::Far => moved(m, mov, 0.6).along(path),
        Target::Unreachable => Pose { p: add(here.p, [50., -80., 100.]), ..here },
        Target::Origin => Pose::ID,
        Target::Turned => Pose { r: mm(&rot(unit([1., 2., -1.]), PI), &here.r), p: here.p },
        Target::Released => {
            let n = moved(m, mov, 0.05).along(path);
            Pose { r: mm(&rot(unit([0.3, 1., 0.2]), 0.3), &n.r), p: add(n.p, [0.02, -0.03, 0.01]) }
        }
        _ => here,
    }
}
fn target_iso<T: Sc>(m: &Model, path: &[usize], mov: &[usize], t: Target) -> k::Isometry3<T> {
    let mut i = iso_of_pose::<T>(&target_pose(m, path, mov, t));
    match t {
        Target::Nan => i.translation.vector[1] = T::of(f64::NAN),
        Target::Inf => i.translation.vector[2] = T::of(f64::INFINITY),
        Target::NanRotation => {
            i.rotation = k::UnitQuaternion::new_unchecked(k::nalgebra::Quaternion::new(
                T::of(f64::NAN),
                T::of(0.),
                T::of(0.),
                T::of(1.),
            ))
        }
        _ => {}
    }
    i
}
fn mask_of(code: usize) -> [bool; 6] {
    let mut m = [false; 6];
    for (i, x) in m.iter_mut().enumerate() {
        *x = code >> i & 1 == 1;
    }
    m
}
fn constraints(mask: &[bool; 6], ignored: &[String]) -> Constraints {
    Constraints {
        position_x: mask[0],
        position_y: mask[1],
        position_z: mask[2],
        rotation_x: mask[3],
        rotation_y: mask[4],
        rotation_z: mask[5],
        ignored_joint_names: ignored.to_vec(),
    }
}
#[derive(Clone, Copy, Debug)]
struct Cfg {
    dist: f64,
    angle: f64,
    mult: f64,
    tries: usize,
    nullspace: bool,
}
const CFGS: [Cfg; 9] = [
    Cfg { dist: 1e-3, angle: 5e-3, mult: 0.5, tries: 10, nullspace: false },
    Cfg { dist: 1e-2, angle: 1e-3, mult: 1.0, tries: 30, nullspace: false },
    Cfg { dist: 1e-3, angle: 0.1, mult: 0.5, tries: 3, nullspace: false },
    Cfg { dist: 0.05, angle: 1e-3, mult: 0.7, tries: 4, nullspace: false },
    Cfg { dist: 0.02, angle: 0.02, mult: 0.5, tries: 40, nullspace: true },
    Cfg { dist: 1e-3, angle: 1e-3, mult: 0.5, tries: 1, nullspace: false },
    Cfg { dist: 0.2, angle: 0.3, mult: 1.7, tries: 25, nullspace: false },
    Cfg { dist: 1e-3, angle: 1e-3, mult: 0.5, tries: 0, nullspace: false },
    Cfg { dist: 0.0, angle: -1.0, mult: 30.0, tries: 8, nullspace: true },
];
fn solver<T: Sc>(c: &Cfg, dof: usize) -> JacobianIkSolver<T> {
    let mut s = JacobianIkSolver::new(T::of(c.dist), T::of(c.angle), T::of(c.mult), c.tries);
    if c.nullspace {
        s.set_nullspace_function(Box::new(move |q: &[T]| {
            (0..dof).map(|i| T::of(0.05 * ((i % 3) as f64 - 1.0)) * (q[i] - T::of(0.2))).collect()
        }));
    }
    s
}
fn positions<T: Sc>(nodes: &[Node<T>]) -> Vec<Option<T>> {
    nodes.iter().map(|n| n.joint_position()).collect()
}
fn bits<T: Sc>(p: &[Option<T>]) -> Vec<Option<u64>> {
    p.iter().map(|x| x.map(|y| y.bits())).collect()
}
/// the model with the positions of the real joints
fn with_positions<T: Sc>(m: &Model, p: &[Option<T>]) -> Model {
    let mut m = m.clone();
    for (i, x) in p.iter().enumerate() {
        if let Some(x) = x {
            m.nodes[i].q = x.d();
        }
    }
    m
}
/// everything that follows some joint of `set`
fn follow_closure(m: &Model, set: &[usize]) -> Vec<usize> {
    let mut v = set.to_vec();
    let mut k = 0;
    while k < v.len() {
        for f in m.followers(v[k]) {
            if !v.contains(&f) {
                v.push(f);
            }
        }
        k += 1;
    }
    v
}

// ---------------------------------------------------------------- C16, C17, C18: one call

struct Case<T: Sc> {
    m: Model,
    path: Vec<usize>,
    mov: Vec<usize>,
    nodes: Robot<T>,
    arm: SerialChain<T>,
}
fn case<T: Sc>(a: &Arm, start: usize) -> Case<T> {
    let mut m = a.at::<T>(start);
    if start % 2 == 1 {
        // names that contain each other, or differ in case or blanks
        for (i, n) in m.nodes.iter_mut().enumerate() {
            let k = i / 3 + 1;
            n.name = match i % 3 {
                0 => "j".repeat(k),
                1 => "J".repeat(k),
                _ => format!("{} ", "j".repeat(k)),
            };
        }
    }
    let nodes = build::<T>(&m);
    let arm = if a.gap.is_empty() {
        serial(&nodes, a.end, a.root)
    } else {
        SerialChain::new_unchecked(Chain::from_nodes(a.path().into_iter().map(|i| nodes[i].clone()).collect()))
    };
    Case {
        path: a.path(),
        mov: a.movable(),
        m,
        nodes,
        arm,
    }
}
impl<T: Sc> Case<T> {
    /// back to the start
    fn reset(&self) {
        for (i, n) in self.m.nodes.iter().enumerate() {
            if n.kind.movable() {
                self.nodes[i].set_joint_position_unchecked(T::of(n.q));
            }
        }
    }
    fn names(&self, set: &[usize]) -> Vec<String> {
        set.iter().map(|i| self.m.nodes[self.mov[*i]].name.clone()).collect()
    }
}
fn judge16<T: Sc>(c: &Case<T>, target: &Pose, mask: &[bool; 6], cfg: &Cfg, res: &Result<(), Error>) -> Result<(), String> {
    if res.is_err() {
        return Ok(());
    }
    let after = positions(&c.nodes);
    let m = with_positions(&c.m, &after);
    let end = m.along(&c.path);
    let dp = sub(target.p, end.p);
    let dr = log_rot(&mm(&target.r, &tr(&end.r)));
    let (mut e, mut w) = (0f64, 0f64);
    for i in 0..3 {
        if mask[i] {
            e += dp[i] * dp[i];
        }
        if mask[i + 3] {
            w += dr[i] * dr[i];
        }
    }
    let (e, w) = (e.sqrt(), w.sqrt());
    let slack = T::TOL * extent(&m);
    ensure!(e < cfg.dist + slack, "success, but the position error is {} (allowed: {})", e, cfg.dist);
    ensure!(w < cfg.angle + slack, "success, but the rotation error is {} (allowed: {})", w, cfg.angle);
    let inside = |i: usize| c.path.contains(&i);
    for i in &c.path {
        // a joint which follows one outside of the arm is never commanded
        let mut d = *i;
        while let Some((x, _, _)) = m.nodes[d].mimic {
            d = x;
        }
        if !inside(d) {
            continue;
        }
        if let (Some((lo, hi)), Some(q)) = (m.nodes[*i].limits, after[*i]) {
            ensure!(
                q >= T::of(lo) && q <= T::of(hi),
                "success, but {} is at {} (limits {} {})",
                m.nodes[*i].name,
                q,
                lo,
                hi
            );
        }
    }
    let moving = follow_closure(&c.m, &c.mov);
    for (i, n) in m.nodes.iter().enumerate() {
        if !n.kind.movable() {
            continue;
        }
        if !moving.contains(&i) {
            ensure!(
                n.q.to_bits() == c.m.nodes[i].q.to_bits(),
                "{} is outside of the arm but moved from {} to {}",
                n.name,
                c.m.nodes[i].q,
                n.q
            );
        } else if let Some((d, mu, o)) = n.mimic {
            if moving.contains(&d) {
                let mut d0 = d;
                while let Some((x, _, _)) = m.nodes[d0].mimic {
                    d0 = x;
                }
                if !inside(d0) {
                    continue;
                }
                let mut want = mu * m.nodes[d].q + o;
                if let Some((lo, hi)) = n.limits {
                    want = want.max(lo).min(hi);
                }
                ensure!(
                    (n.q - want).abs() <= T::TOL * (1. + want.abs()),
                    "success, but {} is at {} instead of {} as its driver demands",
                    n.name,
                    n.q,
                    want
                );
            }
        }
    }
    Ok(())
}
fn judge17<T: Sc>(c: &Case<T>, before: &[Option<T>], res: &Result<(), Error>) -> Result<(), String> {
    if let Err(e) = res {
        let after = positions(&c.nodes);
        for i in 0..after.len() {
            ensure!(
                after[i].map(|x| x.bits()) == before[i].map(|x| x.bits()),
                "failed ({:?}), but {} moved from {:?} to {:?}",
                e,
                c.m.nodes[i].name,
                before[i],
                after[i]
            );
        }
    }
    Ok(())
}
fn kind_of(r: &Result<(), Error>) -> &'static str {
    match r {
        Ok(()) => "success",
        Err(Error::NotConvergedError { .. }) => "not converged",
        Err(Error::InverseMatrixError) => "singular",
        Err(Error::PreconditionError { .. }) => "too few joints",
        Err(Error::InvalidJointNameError { .. }) => "unknown joint",
        Err(_) => "other error",
    }
}
/// subsets of the movable joints of an arm (all of them up to 2^4, otherwise a fixed list)
fn ignored_sets(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    if n > 12 {
        for i in [0, 1, 31, 32, 33, 34, 63, 64, 65, n - 2, n - 1] {
            if i < n {
                v.push(vec![i]);
            }
        }
        v.push(vec![n - 1, 2, 33]);
        v.push((0..n).step_by(2).collect());
        v.push((0..n).filter(|i| i % 6 != 1).rev().collect());
        v.push((0..n - 6).collect());
        v.push((6..n).collect());
        v.push((0..n).collect());
        return v;
    }
    for i in 0..n {
        v.push(vec![i]);
    }
    for i in 0..n {
        for j in 0..i {
            v.push(vec![i, j]); // not in order
        }
    }
    if n >= 3 {
        for i in 0..n {
            v.push(vec![i, (i + 1) % n, (i + n - 1) % n]);
        }
    }
    if n > 3 {
        v.push((0..n).collect());
        v.push((1..n).collect());
        v.push((0..n - 1).rev().collect());
        for i in 0..n {
            // all but two
            v.push((0..n).filter(|x| *x != i && *x != (i + 2) % n).collect());
        }
    }
    v
}
type Dims = (usize, usize);
/// all (arm, ignored set) pairs
fn arm_sets(arms: &[Arm], max: usize) -> Vec<Dims> {
    let mut v = vec![];
    for (k, a) in arms.iter().enumerate() {
        for i in 0..ignored_sets(a.movable().len()).len().min(max) {
            v.push((k, i));
        }
    }
    v
}

/// many tries: (multiplier, tries); the last list for few cases only
fn long_space(
    targets: &'static [Target],
    some: &'static [(f64, usize)],
    few: &'static [(f64, usize)],
    f: impl Fn(&Arm, usize, Target, &[bool; 6], &Cfg, &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
) -> Space {
    let arms = arms();
    let n = arms.len();
    let a = prod(&[n, 2, targets.len(), 3, some.len()]);
    let b = prod(&[2, targets.len(), few.len()]);
    space(
        "long",
        a + b,
        "arms x starts x targets x constrained subsets x up to 600 slow tries, on two arms up to 65,537 or 100,000",
        move |i, ctx| {
            let (arm, start, target, mask, (mult, tries)) = if i < a {
                let mut d = Dec(i);
                (&arms[d.take(n)], d.take(2), *d.pick(targets), mask_of([63, 7, 56][d.take(3)]), *d.pick(some))
            } else {
                let mut d = Dec(i - a);
                (&arms[[0, n - 1][d.take(2)]], 0, *d.pick(targets), mask_of(7), *d.pick(few))
            };
            if start >= arm.starts.len() {
                return Ok(());
            }
            let cfg = Cfg { dist: 1e-2, angle: 1e-2, mult, tries, nullspace: false };
            f(arm, start, target, &mask, &cfg, ctx)
        },
    )
}
const C16_TOLS: [f64; 7] = [1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 0.03, 1e3];
fn c16(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let mk = move |name: &'static str, f32_: bool| {
        let arms = arms();
        let sets = arm_sets(&arms, if !q { usize::MAX } else if f32_ { 6 } else { 12 });
        let len = prod(&[sets.len(), 4, TARGETS.len(), 63, 7]);
        space(
            name,
            len,
            "arms x ignored joints x starts x targets x all constrained subsets x solver settings",
            move |i, ctx| {
                let mut d = Dec(i);
                let cfg = CFGS[d.take(7)];
                let mask = mask_of(d.take(63) + 1);
                let target = *d.pick(&TARGETS);
                let start = d.take(4);
                let (ai, ii) = *d.pick(&sets);
                let a = &arms[ai];
                if start >= a.starts.len() {
                    return Ok(());
                }
                if f32_ {
                    c16_case::<f32>(a, start, target, &mask, ii, &cfg, ctx)
                } else {
                    c16_case::<f64>(a, start, target, &mask, ii, &cfg, ctx)
                }
            },
        )
    };
    let mut spaces = vec![mk("solve_f64", false), mk("solve_f32", true)];
    spaces.push(long_space(
        &[Target::Near, Target::Far, Target::Here, Target::Turned],
        &[(0.02, 255), (0.02, 257), (0.02, 300), (0.02, 600)],
        &[(0.00007, 100_000)],
        |a, start, target, mask, cfg, ctx| c16_case::<f64>(a, start, target, mask, 0, cfg, ctx),
    ));
    // tolerances of all sizes: the solver passes each of them on its way
    let arms3 = arms();
    let sets3 = arm_sets(&arms3, 3);
    let len3 = prod(&[sets3.len(), 2, 3, if q { 12 } else { 63 }, C16_TOLS.len(), C16_TOLS.len(), 3]);
    spaces.push(space(
        "tolerances",
        len3,
        "arms x ignored joints x starts x targets x constrained subsets x distance and angle tolerances of 1e-8 to 1e3 x multipliers",
        move |i, ctx| {
            let mut d = Dec(i);
            let (mult, tries) = [(0.5, 60), (0.2, 150), (0.9, 25)][d.take(3)];
            let (dist, angle) = (*d.pick(&C16_TOLS), *d.pick(&C16_TOLS));
            let mask = if q { [63, 7, 56, 1, 4, 32, 8, 35, 21, 14, 31, 62][d.take(12)] } else { 1 + d.take(63) };
            let target = [Target::Near, Target::Far, Target::Released][d.take(3)];
            let start = d.take(2);
            let (ai, ii) = *d.pick(&sets3);
            let a = &arms3[ai];
            if start >= a.starts.len() {
                return Ok(());
            }
            let cfg = Cfg { dist, angle, mult, tries, nullspace: false };
            c16_case::<f64>(a, start, target, &mask_of(mask), ii, &cfg, ctx)
        },
    ));
    // solve() without constraints argument, and repeated calls on one arm
    let arms2 = arms();
    let n = arms2.len();
    spaces.push(space("repeated", prod(&[n, 4, 7, 7, 7, 7]), "sequences of three calls (all constrained) on one arm, f64 and f32", move |i, ctx| {
        let mut d = Dec(i);
        let a = &arms2[d.take(n)];
        let start = d.take(4);
        let cfg = CFGS[d.take(7)];
        let ts = [TARGETS[d.take(7)], TARGETS[d.take(7)], TARGETS[d.take(7)]];
        if start >= a.starts.len() {
            return Ok(());
        }
        fn go<T: Sc>(a: &Arm, start: usize, cfg: &Cfg, ts: &[Target], ctx: &mut Ctx) -> Result<(), String> {
            let mut c = case::<T>(a, start);
            let s = solver::<T>(cfg, c.mov.len());
            for t in ts {
                let pose = target_pose(&c.m, &c.path, &c.mov, *t);
                let res = s.solve(&c.arm, &iso_of_pose(&pose));
                ctx.step();
                ctx.note(|| format!("{:?}: {:?}", t, res));
                judge16(&c, &pose, &[true; 6], cfg, &res)?;
                c.m = with_positions(&c.m, &positions(&c.nodes));
                ctx.state_hash(c.m.key());
                ctx.count(kind_of(&res));
            }
            Ok(())
        }
        ctx.note(|| format!("{} start {} {:?} {:?}", a.name, start, cfg, ts));
        go::<f64>(a, start, &cfg, &ts, ctx)?;
        if i % 8 == 0 {
            go::<f32>(a, start, &cfg, &ts, ctx)?;
        }
        Ok(())
    }));
    spaces.push(rare_space(&[Target::Near, Target::Far, Target::Here], &[0, 1, 4, 6], |(a, ii, start, target, mask, cfg), ctx| {
        c16_case::<f64>(a, start, target, &mask, ii, &cfg, ctx)
    }));
    spaces.push(every_space(t, &[0, 1, 2, 3, 4, 5], &[Target::Near, Target::Far], &[0, 4], |(a, ii, start, target, mask, cfg), ctx| {
        c16_case::<f64>(a, start, target, &mask, ii, &cfg, ctx)
    }));
    Check {
        id: "C16",
        spaces,
        assumptions: vec![
            "the error of the result is computed by the reference model from the final joint positions",
            "a joint of the arm that mimics a joint outside of it is not moved by the solver, and only its staying put is checked",
        ],
    }
}
fn c16_case<T: Sc>(a: &Arm, start: usize, target: Target, mask: &[bool; 6], ii: usize, cfg: &Cfg, ctx: &mut Ctx) -> Result<(), String> {
    let c = case::<T>(a, start);
    let ig = c.names(&ignored_sets(c.mov.len())[ii]);
    ctx.note(|| {
        format!("{} {} start {:?} target {:?} mask {:?} ignored {:?} {:?}", T::NAME, a.name, a.starts[start], target, mask, ig, cfg)
    });
    let pose = target_pose(&c.m, &c.path, &c.mov, target);
    let s = solver::<T>(cfg, c.mov.len());
    let res = s.solve_with_constraints(&c.arm, &iso_of_pose(&pose), &constraints(mask, &ig));
    ctx.step();
    ctx.note(|| format!("{:?} {:?}", res, positions(&c.nodes)));
    ctx.count(kind_of(&res));
    ctx.state();
    judge16(&c, &pose, mask, cfg, &res)
}

fn c17(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let mk = move |name: &'static str, f32_: bool| {
        let arms = arms();
        let sets = arm_sets(&arms, if !q { usize::MAX } else if f32_ { 6 } else { 12 });
        let ts: Vec<Target> = TARGETS.iter().copied().chain([Target::Nan, Target::Inf, Target::NanRotation]).collect();
        let len = prod(&[sets.len(), 4, ts.len(), 64, CFGS.len()]);
        space(
            name,
            len,
            "arms x ignored joints x starts x targets (some not finite) x all constrained subsets x solver settings (some without tries)",
            move |i, ctx| {
                let mut d = Dec(i);
                let cfg = *d.pick(&CFGS);
                let mask = mask_of(d.take(64));
                let target = *d.pick(&ts);
                let start = d.take(4);
                let (ai, ii) = *d.pick(&sets);
                let a = &arms[ai];
                if start >= a.starts.len() {
                    return Ok(());
                }
                // sets 3, 7, ..: with an unknown name, too; 5, ..: named twice
                if f32_ {
                    c17_case::<f32>(a, start, target, &mask, ii, &cfg, ctx)
                } else {
                    c17_case::<f64>(a, start, target, &mask, ii, &cfg, ctx)
                }
            },
        )
    };
    let mut spaces = vec![mk("solve_f64", false), mk("solve_f32", true)];
    spaces.push(long_space(
        &[Target::Near, Target::Far, Target::Unreachable, Target::NanRotation],
        &[(0.5, 255), (0.5, 256), (0.5, 257), (0.001, 300), (1.0, 600)],
        &[(0.5, 65_535), (0.5, 65_536), (0.5, 65_537)],
        |a, start, target, mask, cfg, ctx| c17_case::<f64>(a, start, target, mask, 0, cfg, ctx),
    ));
    spaces.push(rare_space(
        &[Target::Near, Target::Far, Target::Unreachable, Target::Nan],
        &[0, 5, 7, 8],
        |(a, ii, start, target, mask, cfg), ctx| c17_case::<f64>(a, start, target, &mask, ii, &cfg, ctx),
    ));
    spaces.push(every_space(
        t,
        &[0, 1, 2, 3, 4, 5],
        &[Target::Near, Target::Unreachable],
        &[5, 0],
        |(a, ii, start, target, mask, cfg), ctx| c17_case::<f64>(a, start, target, &mask, ii, &cfg, ctx),
    ));
    Check {
        id: "C17",
        spaces,
        assumptions: vec!["'returns' is decided by a limit of 60 s for a call that takes less than a millisecond"],
    }
}
fn c17_case<T: Sc>(a: &Arm, start: usize, target: Target, mask: &[bool; 6], ii: usize, cfg: &Cfg, ctx: &mut Ctx) -> Result<(), String> {
    let c = case::<T>(a, start);
    let mut ig = c.names(&ignored_sets(c.mov.len())[ii]);
    if ii % 4 == 3 {
        ig.push("nobody".into());
    }
    if ii % 6 == 5 {
        ig.extend(ig.clone());
    }
    ctx.note(|| {
        format!("{} {} start {:?} target {:?} mask {:?} ignored {:?} {:?}", T::NAME, a.name, a.starts[start], target, mask, ig, cfg)
    });
    let pose = target_iso::<T>(&c.m, &c.path, &c.mov, target);
    let s = solver::<T>(cfg, c.mov.len());
    let before = positions(&c.nodes);
    let res = s.solve_with_constraints(&c.arm, &pose, &constraints(mask, &ig));
    ctx.step();
    ctx.note(|| format!("{:?} {:?}", res, positions(&c.nodes)));
    ctx.count(kind_of(&res));
    ctx.state();
    judge17(&c, &before, &res)?;
    if matches!(target, Target::Nan | Target::Inf | Target::NanRotation) && mask.iter().all(|x| *x) {
        ensure!(res.is_err(), "success for a target that is not finite");
    }
    Ok(())
}

// ---------------------------------------------------------------- C18

fn close<T: Sc>(a: &[Option<T>], b: &[Option<T>], tol: f64) -> bool {
    a.iter().zip(b).all(|(x, y)| match (x, y) {
        (Some(x), Some(y)) => (x.d() - y.d()).abs() <= tol * (1. + x.d().abs()),
        (None, None) => true,
        _ => false,
    })
}
fn same_kind(a: &Result<(), Error>, b: &Result<(), Error>) -> bool {
    kind_of(a) == kind_of(b)
}
fn c18_case<T: Sc>(a: &Arm, start: usize, target: Target, mask: &[bool; 6], ii: usize, cfg: &Cfg, ctx: &mut Ctx) -> Result<(), String> {
    let c = case::<T>(a, start);
    let set = ignored_sets(c.mov.len())[ii].clone();
    let ig = c.names(&set);
    ctx.note(|| {
        format!("{} {} start {:?} target {:?} mask {:?} ignored {:?} {:?}", T::NAME, a.name, a.starts[start], target, mask, ig, cfg)
    });
    let pose = target_pose(&c.m, &c.path, &c.mov, target);
    let s = solver::<T>(cfg, c.mov.len());
    let before = positions(&c.nodes);
    let run = |pose: &Pose, names: &[String]| {
        c.reset();
        let r = s.solve_with_constraints(&c.arm, &iso_of_pose(pose), &constraints(mask, names));
        (r, positions(&c.nodes))
    };
    let (res, after) = run(&pose, &ig);
    ctx.step();
    ctx.state();
    ctx.count(kind_of(&res));
    ctx.note(|| format!("{:?} {:?}", res, after));
    // ignored joints stay put
    for x in &set {
        let i = c.mov[*x];
        let n = &c.m.nodes[i];
        let within = n.limits.map_or(true, |(lo, hi)| n.q >= T::of(lo).d() && n.q <= T::of(hi).d());
        if n.mimic.is_none() && within {
            ensure!(
                after[i].map(|x| x.bits()) == before[i].map(|x| x.bits()),
                "{:?}: ignored joint {} moved from {:?} to {:?}",
                res,
                n.name,
                before[i],
                after[i]
            );
        }
    }
    let need = mask.iter().filter(|x| **x).count();
    let free = c.mov.len() - set.len();
    if free < need {
        match &res {
            Err(Error::PreconditionError { dof, necessary_dof }) => ensure!(
                *dof == free && *necessary_dof == need,
                "reported counts {} {} instead of {} {}",
                dof,
                necessary_dof,
                free,
                need
            ),
            r => return Err(format!("{} joints for {} coordinates: {:?}", free, need, r)),
        }
    } else {
        ensure!(
            matches!(res, Ok(()) | Err(Error::NotConvergedError { .. }) | Err(Error::InverseMatrixError)),
            "{} joints for {} coordinates: {:?}",
            free,
            need,
            res
        );
    }
    // naming joints twice is naming them once
    if !ig.is_empty() {
        let mut twice = ig.clone();
        twice.extend(ig.iter().rev().cloned());
        twice.push(ig[0].clone());
        let (r2, a2) = run(&pose, &twice);
        ctx.step();
        ensure!(same_kind(&res, &r2), "named once: {:?}, named twice: {:?}", res, r2);
        if let (Err(Error::PreconditionError { dof, .. }), Err(Error::PreconditionError { dof: d2, .. })) = (&res, &r2) {
            ensure!(dof == d2, "named once: {} joints, named twice: {}", dof, d2);
        }
        ensure!(bits(&after) == bits(&a2), "named once: {:?}, named twice: {:?}", after, a2);
    }
    // unknown names: also names close to those of the arm, and of joints that are not part of it
    let mut unknown: Vec<String> = vec!["nobody".into(), "".into(), " ".into()];
    if let Some(i) = c.mov.get(set.len() % c.mov.len().max(1)) {
        let n = &c.m.nodes[*i].name;
        unknown.extend([
            n[1..].to_string(),
            n[..n.len() - 1].to_string(),
            format!("{}1", n),
            format!("1{}", n),
            format!(" {}", n),
            format!("{} ", n),
            n.to_uppercase(),
            n.to_lowercase(),
            n.trim().to_string(),
            format!("{},{}", n, n),
        ]);
    }
    unknown.extend((0..c.m.nodes.len()).filter(|i| !c.path.contains(i)).map(|i| c.m.nodes[i].name.clone()));
    unknown.retain(|n| c.path.iter().all(|i| c.m.nodes[*i].name != *n));
    for n in unknown {
        let mut names = ig.clone();
        names.insert(names.len() / 2, n.clone());
        let (r2, a2) = run(&pose, &names);
        ctx.step();
        match r2 {
            Err(Error::InvalidJointNameError { joint_name }) => {
                ensure!(joint_name == n, "the unknown joint {:?} is reported as {:?}", n, joint_name)
            }
            Err(Error::PreconditionError { .. }) if free < need => {}
            r => return Err(format!("unknown joint {:?}: {:?}", n, r)),
        }
        ensure!(bits(&before) == bits(&a2), "unknown joint: moved to {:?}", a2);
    }
    // released position coordinates
    for (k, far) in [[0.37, -0.21, 0.53], [-5.0, 7.0, 11.0], [1000.0, -2000.0, 500.0]].iter().enumerate() {
        let mut p2 = pose;
        let mut any = false;
        for x in 0..3 {
            if !mask[x] {
                p2.p[x] += far[x];
                any = true;
            }
        }
        if !any || (k > 0 && start > 0) {
            break;
        }
        let (r2, a2) = run(&p2, &ig);
        ctx.step();
        ensure!(
            same_kind(&res, &r2),
            "the result depends on a released coordinate: {:?} and (moved by {:?}) {:?}",
            res,
            far,
            r2
        );
        ensure!(
            close(&after, &a2, if T::TOL < 1e-6 { 1e-6 } else { 1e-3 }),
            "the motion depends on a released coordinate: {:?} and (moved by {:?}) {:?}",
            after,
            far,
            a2
        );
        ctx.count("released coordinates moved");
    }
    Ok(())
}
fn c18(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let mk = move |name: &'static str, f32_: bool| {
        let arms = arms();
        let sets = arm_sets(&arms, usize::MAX);
        let cfgs: Vec<Cfg> = if q { vec![CFGS[0], CFGS[4]] } else { CFGS[..7].to_vec() };
        let targets: Vec<Target> = if q { vec![Target::Near, Target::Far, Target::Turned] } else { TARGETS.to_vec() };
        let starts = if q { 2 } else { 4 };
        let len = prod(&[sets.len(), starts, targets.len(), 64, cfgs.len()]);
        space(
            name,
            len,
            "arms x ignored joints (none, one, pairs, triples, nearly all, all) x starts x targets x all constrained subsets x settings; each compared with the call with repeated names, an unknown name, and other released coordinates",
            move |i, ctx| {
                let mut d = Dec(i);
                let cfg = *d.pick(&cfgs);
                let mask = mask_of(d.take(64));
                let target = *d.pick(&targets);
                let start = d.take(starts);
                let (ai, ii) = *d.pick(&sets);
                let a = &arms[ai];
                if start >= a.starts.len() {
                    return Ok(());
                }
                if f32_ {
                    c18_case::<f32>(a, start, target, &mask, ii, &cfg, ctx)
                } else {
                    c18_case::<f64>(a, start, target, &mask, ii, &cfg, ctx)
                }
            },
        )
    };
    let mut spaces = vec![mk("constraints_f64", false), mk("constraints_f32", true)];
    spaces.push(rare_space(&[Target::Near, Target::Turned], &[0, 4], |(a, ii, start, target, mask, cfg), ctx| {
        c18_case::<f64>(a, start, target, &mask, ii, &cfg, ctx)
    }));
    spaces.push(every_space(t, &[0, 1, 3], &[Target::Near, Target::Turned], &[0], |(a, ii, start, target, mask, cfg), ctx| {
        c18_case::<f64>(a, start, target, &mask, ii, &cfg, ctx)
    }));
    Check {
        id: "C18",
        spaces,
        assumptions: vec![
            "an ignored joint that starts outside of its limits is not covered (success puts every joint of the arm within its limits)",
            "motions are compared to 1e-6",
        ],
    }
}

// ---------------------------------------------------------------- C19

fn c19_case<T: Sc>(a: &Arm, start: usize, set: &[usize], mask: &[bool; 6], delta: f64, dir: usize, mult: f64, ctx: &mut Ctx) -> Result<(), String> {
    let (dist, angle) = if T::TOL < 1e-6 { (1e-5, 1e-5) } else { (1e-3, 5e-3) };
    c19_with::<T>(a, start, set, mask, delta, dir, mult, (dist, angle, 200), ctx)
}
#[allow(clippy::too_many_arguments)]
fn c19_with<T: Sc>(
    a: &Arm,
    start: usize,
    set: &[usize],
    mask: &[bool; 6],
    delta: f64,
    dir: usize,
    mult: f64,
    (dist, angle, budget): (f64, f64, usize),
    ctx: &mut Ctx,
) -> Result<(), String> {
    let c = case::<T>(a, start);
    let free: Vec<usize> = (0..c.mov.len()).filter(|x| !set.contains(x)).collect();
    let need = mask.iter().filter(|x| **x).count();
    if free.len() < need || need == 0 {
        ctx.count("not applicable: too few joints");
        return Ok(());
    }
    let well = |m: &Model| {
        let j = task(&m.jacobian(&c.path), mask, &free);
        // small arms: positions compared with what all joints do to the position
        let size = task(&m.jacobian(&c.path), &[true, true, true, false, false, false], &free)
            .iter()
            .flatten()
            .fold(0f64, |a, x| a + x * x)
            .sqrt();
        let position_only = !mask[3..].iter().any(|x| *x);
        singular(&j).iter().all(|s| *s >= 0.12 || (position_only && *s >= 0.002 && *s >= 0.3 * size))
    };
    // the goal configuration: only free joints differ
    let mut goal = c.m.clone();
    for (k, x) in free.iter().enumerate() {
        let s = [1.0, -0.7, 0.5, -0.9, 0.8, -0.4, 0.6, 1.0];
        goal.nodes[c.mov[*x]].q += delta * s[(k * (dir + 1) + dir) % 8] * if dir % 2 == 0 { 1. } else { -1. };
    }
    let mut between = c.m.clone();
    for i in &c.mov {
        between.nodes[*i].q = 0.5 * (c.m.nodes[*i].q + goal.nodes[*i].q);
    }
    if !(well(&c.m) && well(&goal) && well(&between)) {
        ctx.count("not applicable: not well conditioned");
        return Ok(());
    }
    for i in &c.mov {
        if let Some((lo, hi)) = c.m.nodes[*i].limits {
            for m in [&c.m, &goal] {
                if m.nodes[*i].q < lo + 0.4 || m.nodes[*i].q > hi - 0.4 {
                    ctx.count("not applicable: near limits");
                    return Ok(());
                }
            }
        }
        if c.m.nodes[*i].mimic.is_some() {
            ctx.count("not applicable: mimic");
            return Ok(());
        }
    }
    let ig = c.names(set);
    ctx.note(|| {
        format!("{} {} start {:?} mask {:?} ignored {:?} delta {} dir {} multiplier {}", T::NAME, a.name, a.starts[start], mask, ig, delta, dir, mult)
    });
    let pose = goal.along(&c.path);
    let tries = if delta == 0. { 1 } else { budget };
    let s = JacobianIkSolver::<T>::new(T::of(dist), T::of(angle), T::of(mult), tries);
    let res = s.solve_with_constraints(&c.arm, &iso_of_pose(&pose), &constraints(mask, &ig));
    ctx.step();
    ctx.state();
    ctx.note(|| format!("{:?} {:?}", res, positions(&c.nodes)));
    ensure!(
        res.is_ok(),
        "a target {} away{} is not solved within {} tries: {:?}",
        delta,
        if delta == 0. { " (already met)" } else { "" },
        tries,
        res
    );
    ctx.count(if delta == 0. {
        "already met"
    } else if free.len() == need {
        "solved, exactly determined"
    } else {
        "solved, redundant"
    });
    Ok(())
}
fn c19(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let mk = move |name: &'static str, f32_: bool| {
        let arms = arms();
        let sets = arm_sets(&arms, usize::MAX);
        let mults: Vec<f64> = if q { vec![0.5, 1.0] } else { vec![0.2, 0.5, 0.8, 1.0] };
        let deltas: Vec<f64> = if q { vec![0.0, 0.06] } else { vec![0.0, 0.002, 0.03, 0.06] };
        let dirs = if q { 2 } else { 6 };
        let len = prod(&[sets.len(), 4, deltas.len(), 63, dirs, mults.len()]);
        space(
            name,
            len,
            "arms x ignored joints x starts x all constrained subsets x displacements of the goal (none, near) x directions x multipliers",
            move |i, ctx| {
                let mut d = Dec(i);
                let mult = *d.pick(&mults);
                let delta = *d.pick(&deltas);
                let dir = d.take(dirs);
                let mask = mask_of(d.take(63) + 1);
                let start = d.take(4);
                let (ai, ii) = *d.pick(&sets);
                let a = &arms[ai];
                if start >= a.starts.len() {
                    return Ok(());
                }
                let set = ignored_sets(a.movable().len())[ii].clone();
                if f32_ {
                    c19_case::<f32>(a, start, &set, &mask, delta, dir, mult, ctx)
                } else {
                    c19_case::<f64>(a, start, &set, &mask, delta, dir, mult, ctx)
                }
            },
        )
    };
    let arms4 = arms();
    let sets4 = arm_sets(&arms4, 4);
    let slow = space(
        "slow",
        prod(&[sets4.len(), 3, if q { 12 } else { 63 }, 2, 9]),
        "small multipliers with up to 20,000 tries, and tolerances down to 1e-9: arms x ignored joints x starts x constrained subsets",
        move |i, ctx| {
            let mut d = Dec(i);
            // each try leaves about (1 - multiplier) of the distance
            let (mult, dist, angle, tries) = [
                (0.03, 1e-5, 1e-5, 1_500),
                (0.03, 1e-7, 1e-3, 1_500),
                (0.5, 1e-9, 1e-9, 200),
                (0.5, 1e-3, 1e-9, 200),
                (0.5, 1e-9, 10., 200),
                (0.9, 1e-8, 1e-8, 100),
                (0.5, 1e-5, 1e-5, 100_000),
                (0.1, 1e-6, 1e-8, 1_000),
                (0.002, 1e-4, 1e-4, 20_000),
            ][d.take(9)];
            let delta = [0.0, 0.05][d.take(2)];
            let mask = if q { [63, 7, 56, 1, 4, 32, 8, 35, 21, 14, 31, 62][d.take(12)] } else { 1 + d.take(63) };
            let start = d.take(3);
            let (ai, ii) = *d.pick(&sets4);
            let a = &arms4[ai];
            if start >= a.starts.len() {
                return Ok(());
            }
            let set = ignored_sets(a.movable().len())[ii].clone();
            c19_with::<f64>(a, start, &set, &mask_of(mask), delta, ii, mult, (dist, angle, tries), ctx)
        },
    );
    Check {
        id: "C19",
        spaces: vec![
            mk("near_f64", false),
            mk("near_f32", true),
            slow,
            rare_space(&[Target::Here, Target::Near], &[0, 1], |(a, ii, start, target, mask, cfg), ctx| {
                let n = a.movable().len();
                let set = ignored_sets(n)[ii].clone();
                // all joints together go as far as those of an arm of six
                let delta = if target == Target::Here { 0. } else { 0.06 * (6. / n as f64).min(1.) };
                c19_case::<f64>(a, start, &set, &mask, delta, 1, cfg.mult, ctx)
            }),
            every_space(t, &[0, 2, 4, 5], &[Target::Here, Target::Near], &[0, 1], |(a, ii, start, target, mask, cfg), ctx| {
                let set = ignored_sets(a.movable().len())[ii].clone();
                let delta = if target == Target::Here { 0. } else { 0.04 };
                c19_case::<f64>(a, start, &set, &mask, delta, start, cfg.mult, ctx)
            }),
        ],
        assumptions: vec![
            "'well conditioned': the smallest singular value of the task Jacobian (reference model) at start, goal and in between is at least 0.12, or, where only positions are constrained, at least 0.002 and three tenths of the norm of the position Jacobian",
            "'close': no joint differs by more than 0.06; 'away from its limits': by 0.4",
            "an ample budget is 200 tries, 1,000 to 20,000 for multipliers of 0.1 to 0.002, for a target already met 1 try",
        ],
    }
}

// ---------------------------------------------------------------- C20

fn ns_fun(code: usize, q: &[f64]) -> Vec<f64> {
    q.iter()
        .enumerate()
        .map(|(i, x)| match code {
            0 => 0.1 * ((i * 7 + 3) % 5) as f64 - 0.2,
            1 => -0.3 * (x - 0.1 * i as f64),
            2 => (i == 0) as u8 as f64 * 0.5,
            3 => (x * 3.0).sin() * 0.2,
            4 => 3.0 * (1.0 - 2.0 * (i % 2) as f64),
            // much larger than any step
            5 => 50.0 * ((i * 3 + 1) % 4) as f64 - 60.0,
            // small, and tiny
            6 => 0.002 * (((i * 5 + 1) % 7) as f64 - 3.0),
            7 => 1e-5 * (((i * 3 + 2) % 5) as f64 - 2.0),
            _ => 0.,
        })
        .collect()
}
fn c20_step<T: Sc>(a: &Arm, start: usize, target: Target, set: &[usize], mask: &[bool; 6], mult: f64, f: usize, ctx: &mut Ctx) -> Result<(), String> {
    let c = case::<T>(a, start);
    let need = mask.iter().filter(|x| **x).count();
    let free: Vec<usize> = (0..c.mov.len()).filter(|x| !set.contains(x)).collect();
    if free.len() < need || need == 0 {
        ctx.count("not applicable: too few joints");
        return Ok(());
    }
    let j = task(&c.m.jacobian(&c.path), mask, &free);
    // rank must be clear: nothing between zero and 0.01
    let sv = singular(&j);
    if sv.iter().any(|s| *s > 1e-6 && *s < 0.01) {
        ctx.count("not applicable: nearly singular");
        return Ok(());
    }
    // and the arm must not be changed by limits or mimics
    if c.mov.iter().any(|i| c.m.nodes[*i].mimic.is_some()) {
        ctx.count("not applicable: mimics");
        return Ok(());
    }
    let at_limit = |q: &[f64]| {
        c.mov.iter().zip(q).any(|(i, q)| c.m.nodes[*i].limits.map_or(false, |(lo, hi)| *q < lo + 1e-6 || *q > hi - 1e-6))
    };
    if at_limit(&c.mov.iter().map(|i| c.m.nodes[*i].q).collect::<Vec<_>>()) {
        ctx.count("not applicable: at a limit");
        return Ok(());
    }
    let ig = c.names(set);
    ctx.note(|| {
        format!(
            "{} {} start {:?} target {:?} mask {:?} ignored {:?} multiplier {} function {}",
            T::NAME, a.name, a.starts[start], target, mask, ig, mult, f
        )
    });
    let pose = target_pose(&c.m, &c.path, &c.mov, target);
    let cons = constraints(mask, &ig);
    // any result of the first step is a success
    let big = T::of(1e9);
    let mut s = JacobianIkSolver::<T>::new(big, big, T::of(mult), 1);
    let run = |s: &JacobianIkSolver<T>| {
        c.reset();
        let r = s.solve_with_constraints(&c.arm, &iso_of_pose(&pose), &cons);
        (r, c.mov.iter().map(|i| c.nodes[*i].joint_position().unwrap().d()).collect::<Vec<f64>>())
    };
    let (r0, q0) = run(&s);
    let seen: Arc<Mutex<Vec<Vec<f64>>>> = Arc::new(Mutex::new(vec![]));
    let seen2 = seen.clone();
    // only the last function counts
    if f % 2 == 1 {
        s.set_nullspace_function(Box::new(|q: &[T]| q.iter().map(|x| T::of(0.7) - *x).collect()));
    }
    if f % 4 == 3 {
        s.clear_nullspace_function();
    }
    s.set_nullspace_function(Box::new(move |q: &[T]| {
        let q: Vec<f64> = q.iter().map(|x| x.d()).collect();
        let r = ns_fun(f, &q).iter().map(|x| T::of(*x)).collect();
        seen2.lock().unwrap().push(q);
        r
    }));
    let (r1, q1) = run(&s);
    s.clear_nullspace_function();
    let (r2, q2) = run(&s);
    ctx.step();
    ctx.step();
    ctx.step();
    ctx.state();
    ensure!(same_kind(&r0, &r2) && q0 == q2, "after clearing the function: {:?} {:?} instead of {:?} {:?}", r2, q2, r0, q0);
    if r0.is_err() {
        // exactly determined and singular
        ensure!(free.len() == need, "redundant, but {:?}", r0);
        ensure!(same_kind(&r0, &r1), "without: {:?}, with a null-space function: {:?}", r0, r1);
        ctx.count("singular");
        return Ok(());
    }
    ensure!(r1.is_ok(), "with a null-space function: {:?}", r1);
    if at_limit(&q0) || at_limit(&q1) {
        ctx.count("not applicable: reaches a limit");
        return Ok(());
    }
    let start_q: Vec<f64> = c.mov.iter().map(|i| c.m.nodes[*i].q).collect();
    let scale: f64 = 1. + q0.iter().chain(&q1).fold(0f64, |m, x| m.max(x.abs()));
    let eps = T::TOL * scale * 10.;
    let diff: Vec<f64> = q1.iter().zip(&q0).map(|(a, b)| a - b).collect();
    if free.len() == need {
        ensure!(
            diff.iter().all(|x| x.abs() <= eps),
            "without redundancy the function changes the step by {:?}",
            diff
        );
        ctx.count("without redundancy");
        return Ok(());
    }
    for q in seen.lock().unwrap().iter() {
        ensure!(*q == start_q, "the function is given {:?} instead of {:?}", q, start_q);
    }
    let full = ns_fun(f, &start_q);
    let sub: Vec<f64> = free.iter().map(|x| full[*x]).collect();
    let want = null_project(&j, &sub, 1e-3);
    for (k, x) in free.iter().enumerate() {
        ensure!(
            (diff[*x] - mult * want[k]).abs() <= eps,
            "the function moves joint {} by {} instead of {} (all: {:?}, projection {:?})",
            c.m.nodes[c.mov[*x]].name,
            diff[*x],
            mult * want[k],
            diff,
            want
        );
    }
    for x in set {
        ensure!(diff[*x] == 0. && q1[*x] == start_q[*x], "the function moves ignored joint {}", x);
    }
    // the effect on the task
    for r in &j {
        let e: f64 = free.iter().enumerate().map(|(k, x)| r[k] * diff[*x]).sum();
        ensure!(e.abs() <= eps * 10., "the function moves the task by {}", e);
    }
    // and the step itself: multiplier times pseudo-inverse times error
    ctx.count(if sv.iter().any(|s| *s < 1e-6) { "redundant, singular" } else { "redundant" });
    Ok(())
}
fn c20_exact<T: Sc>(a: &Arm, start: usize, target: Target, set: &[usize], mask: &[bool; 6], ctx: &mut Ctx) -> Result<(), String> {
    let c = case::<T>(a, start);
    let need = mask.iter().filter(|x| **x).count();
    if c.mov.len() - set.len() != need {
        return Ok(());
    }
    let ig = c.names(set);
    let cons = constraints(mask, &ig);
    let pose = target_pose(&c.m, &c.path, &c.mov, target);
    ctx.note(|| format!("{} {} start {:?} target {:?} mask {:?} ignored {:?}", T::NAME, a.name, a.starts[start], target, mask, ig));
    let mut s = JacobianIkSolver::<T>::default();
    s.num_max_try = 30;
    let run = |s: &JacobianIkSolver<T>| {
        c.reset();
        let r = s.solve_with_constraints(&c.arm, &iso_of_pose(&pose), &cons);
        (r, positions(&c.nodes))
    };
    let (r0, q0) = run(&s);
    s.set_nullspace_function(Box::new(|q: &[T]| q.iter().map(|_| T::of(0.3)).collect()));
    let (r1, q1) = run(&s);
    ctx.step();
    ctx.state();
    ctx.count("exactly determined call");
    ensure!(same_kind(&r0, &r1), "without: {:?}, with a null-space function: {:?}", r0, r1);
    ensure!(close(&q0, &q1, if T::TOL < 1e-6 { 1e-6 } else { 1e-3 }), "without: {:?}, with a null-space function: {:?}", q0, q1);
    Ok(())
}
/// Whole calls: the function sees the positions before each step, which are those that single steps lead to
fn c20_path<T: Sc>(a: &Arm, start: usize, target: Target, set: &[usize], mask: &[bool; 6], mult: f64, f: usize, tries: usize, ctx: &mut Ctx) -> Result<(), String> {
    let c = case::<T>(a, start);
    let need = mask.iter().filter(|x| **x).count();
    if c.mov.len() - set.len() <= need || need == 0 {
        ctx.count("not applicable: no redundancy");
        return Ok(());
    }
    let ig = c.names(set);
    ctx.note(|| {
        format!(
            "{} {} start {:?} target {:?} mask {:?} ignored {:?} multiplier {} function {} tries {}",
            T::NAME, a.name, a.starts[start], target, mask, ig, mult, f, tries
        )
    });
    let pose = iso_of_pose::<T>(&target_pose(&c.m, &c.path, &c.mov, target));
    let cons = constraints(mask, &ig);
    let here = || -> Vec<f64> { c.mov.iter().map(|i| c.nodes[*i].joint_position().unwrap().d()).collect() };
    // one by one, with a solver that is content with anything
    let mut one = JacobianIkSolver::<T>::new(T::of(1e9), T::of(1e9), T::of(mult), 1);
    one.set_nullspace_function(Box::new(move |q: &[T]| {
        let q: Vec<f64> = q.iter().map(|x| x.d()).collect();
        ns_fun(f, &q).iter().map(|x| T::of(*x)).collect()
    }));
    c.reset();
    let mut want = vec![];
    for _ in 0..tries {
        want.push(here());
        let r = one.solve_with_constraints(&c.arm, &pose, &cons);
        ctx.step();
        if r.is_err() || here().iter().any(|x| !(x.abs() < 1e3)) {
            ctx.count("not applicable: a step fails");
            return Ok(());
        }
    }
    want.dedup();
    // at once, with a solver that is never content
    let seen: Arc<Mutex<Vec<Vec<f64>>>> = Arc::new(Mutex::new(vec![]));
    let seen2 = seen.clone();
    let mut all = JacobianIkSolver::<T>::new(T::of(0.), T::of(0.), T::of(mult), tries);
    all.set_nullspace_function(Box::new(move |q: &[T]| {
        let q: Vec<f64> = q.iter().map(|x| x.d()).collect();
        let r = ns_fun(f, &q).iter().map(|x| T::of(*x)).collect();
        seen2.lock().unwrap().push(q);
        r
    }));
    c.reset();
    let r = all.solve_with_constraints(&c.arm, &pose, &cons);
    ctx.step();
    ctx.state();
    ctx.count("whole calls");
    ensure!(r.is_err(), "a solver that is never content gives {:?}", r);
    let mut got = seen.lock().unwrap().clone();
    got.dedup();
    let tol = if T::TOL < 1e-6 { 1e-7 } else { 1e-3 };
    let same = got.len() == want.len() && got.iter().zip(&want).all(|(x, y)| x.iter().zip(y).all(|(a, b)| (a - b).abs() <= tol * (1. + a.abs())));
    ensure!(same, "the function is asked at {:?}, but the steps lead to {:?}", got, want);
    Ok(())
}
fn c20(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let mk = move |name: &'static str, f32_: bool| {
        let arms = arms();
        let sets = arm_sets(&arms, if q { 40 } else { usize::MAX });
        let targets: Vec<Target> = if q { vec![Target::Near, Target::Here] } else { vec![Target::Near, Target::Here, Target::Far, Target::Released] };
        let mults: Vec<f64> = if q { vec![0.5] } else { vec![0.5, 1.0, 0.05] };
        let len = prod(&[sets.len(), 4, targets.len(), 63, mults.len(), 8]);
        space(
            name,
            len,
            "single steps: arms x ignored joints x starts x targets x all constrained subsets x multipliers x null-space functions",
            move |i, ctx| {
                let mut d = Dec(i);
                let f = d.take(8);
                let mult = *d.pick(&mults);
                let mask = mask_of(d.take(63) + 1);
                let target = *d.pick(&targets);
                let start = d.take(4);
                let (ai, ii) = *d.pick(&sets);
                let a = &arms[ai];
                if start >= a.starts.len() {
                    return Ok(());
                }
                let set = ignored_sets(a.movable().len())[ii].clone();
                if f32_ {
                    c20_step::<f32>(a, start, target, &set, &mask, mult, f, ctx)
                } else {
                    c20_step::<f64>(a, start, target, &set, &mask, mult, f, ctx)
                }
            },
        )
    };
    let mut spaces = vec![mk("step_f64", false), mk("step_f32", true)];
    {
        let arms = arms();
        let sets = arm_sets(&arms, if q { 30 } else { usize::MAX });
        let (fs, ts): (&[usize], &[usize]) = if q { (&[1, 3, 6], &[2, 4]) } else { (&[0, 1, 2, 3, 4, 6], &[2, 3, 4, 8]) };
        let len = prod(&[sets.len(), 4, 2, 63, fs.len(), ts.len()]);
        spaces.push(space("whole", len, "calls of several steps: arms x ignored joints x starts x targets x all constrained subsets x functions x tries", move |i, ctx| {
            let mut d = Dec(i);
            let tries = *d.pick(ts);
            let f = *d.pick(fs);
            let mask = mask_of(d.take(63) + 1);
            let target = [Target::Near, Target::Far][d.take(2)];
            let start = d.take(4);
            let (ai, ii) = *d.pick(&sets);
            let a = &arms[ai];
            if start >= a.starts.len() {
                return Ok(());
            }
            let set = ignored_sets(a.movable().len())[ii].clone();
            c20_path::<f64>(a, start, target, &set, &mask, 0.5, f, tries, ctx)
        }));
    }
    let arms2 = arms();
    let sets = arm_sets(&arms2, usize::MAX);
    spaces.push(space("exact", prod(&[sets.len(), 4, 3, 63]), "whole calls on exactly determined systems, with and without function", move |i, ctx| {
        let mut d = Dec(i);
        let mask = mask_of(d.take(63) + 1);
        let target = [Target::Near, Target::Far, Target::Here][d.take(3)];
        let start = d.take(4);
        let (ai, ii) = *d.pick(&sets);
        let a = &arms2[ai];
        if start >= a.starts.len() {
            return Ok(());
        }
        let set = ignored_sets(a.movable().len())[ii].clone();
        c20_exact::<f64>(a, start, target, &set, &mask, ctx)
    }));
    spaces.push(rare_space(&[Target::Near, Target::Here], &[0], |(a, ii, start, target, mask, cfg), ctx| {
        let set = ignored_sets(a.movable().len())[ii].clone();
        for f in [0, 1, 6] {
            c20_step::<f64>(a, start, target, &set, &mask, cfg.mult, f, ctx)?;
        }
        c20_path::<f64>(a, start, target, &set, &mask, cfg.mult, 1, 2, ctx)
    }));
    spaces.push(every_space(t, &[0, 2, 5], &[Target::Near], &[0, 1], |(a, ii, start, target, mask, cfg), ctx| {
        let set = ignored_sets(a.movable().len())[ii].clone();
        for f in [0, 1, 6] {
            c20_step::<f64>(a, start, target, &set, &mask, cfg.mult, f, ctx)?;
        }
        c20_path::<f64>(a, start, target, &set, &mask, cfg.mult, 1, 3, ctx)
    }));
    const VALS: [f64; 7] = [0.0, 1.0, -0.5, 0.3, 2.5, -100.0, 1e-6];
    spaces.push(space("reference", 7u64.pow(3) * 11 * 2, "reference-position helper: values x lengths x place, f64 and f32", |i, ctx| {
        let mut d = Dec(i);
        let (p, r, w) = (VALS[d.take(7)], VALS[d.take(7)], VALS[d.take(7)]);
        let n = [0, 1, 2, 3, 4, 5, 6, 7, 8, 33, 70][d.take(11)];
        fn go<T: Sc>(p: f64, r: f64, w: f64, n: usize) -> Result<(), String> {
            let ps: Vec<T> = (0..n).map(|i| T::of(p + i as f64)).collect();
            let rs: Vec<T> = (0..n).map(|i| T::of(r - 0.5 * i as f64)).collect();
            let ws: Vec<T> = (0..n).map(|i| T::of(w * (1.0 + i as f64))).collect();
            let f = k::create_reference_positions_nullspace_function(rs.clone(), ws.clone());
            for _ in 0..2 {
                let got = f(&ps);
                ensure!(got.len() == n, "{} values for {} joints", got.len(), n);
                for i in 0..n {
                    let want = ws[i].d() * (ps[i].d() - rs[i].d());
                    ensure!(
                        (got[i].d() - want).abs() <= T::TOL * (1. + want.abs()),
                        "value {} is {} instead of {}",
                        i,
                        got[i],
                        want
                    );
                }
            }
            Ok(())
        }
        ctx.note(|| format!("{} {} {} {}", p, r, w, n));
        ctx.step();
        ctx.state();
        if d.take(2) == 0 {
            go::<f64>(p, r, w, n)
        } else {
            go::<f32>(p, r, w, n)
        }
    }));
    Check {
        id: "C20",
        spaces,
        assumptions: vec![
            "a single step is observed by a solver that accepts any result after one try",
            "configurations with a singular value between 1e-6 and 0.01 are left out: the rank is not clear there",
        ],
    }
}

// ---------------------------------------------------------------- C29

const HOPS: usize = 19;
/// something that happened to the robot (or to the solver) before
fn hop<T: Sc>(op: usize, c: &Case<T>, s: &mut JacobianIkSolver<T>, other: &SerialChain<T>) {
    let dof = c.mov.len();
    let pose = |t: Target| iso_of_pose::<T>(&target_pose(&c.m, &c.path, &c.mov, t));
    match op {
        0 => {
            c.arm.update_transforms();
        }
        1 => {
            let _ = s.solve(&c.arm, &pose(Target::Near));
        }
        2 => {
            let _ = s.solve(&c.arm, &pose(Target::Unreachable));
        }
        3 => {
            let mask = [true, false, true, false, false, false];
            let _ = s.solve_with_constraints(&c.arm, &pose(Target::Far), &constraints(&mask, &[]));
        }
        4 => {
            // moved and updated by another handle
            let q: Vec<T> = (0..dof).map(|i| T::of(0.2 * i as f64 - 0.45)).collect();
            other.set_joint_positions_unchecked(&q);
            other.update_transforms();
        }
        5 => {
            c.arm.update_link_transforms();
        }
        6 if c.arm.iter().next().unwrap().is_root() => {
            let k = c.arm.clone();
            k.set_joint_positions_clamped(&vec![T::of(0.3); dof]);
            let _ = s.solve(&k, &pose(Target::Near));
        }
        7 => {
            c.arm.update_velocities();
        }
        8 => {
            // the whole robot, somewhere else
            let all = k::Chain::from_root(c.nodes[0].clone());
            for (i, n) in c.nodes.iter().enumerate() {
                if c.m.nodes[i].kind.movable() {
                    n.set_joint_position_unchecked(T::of(0.9 - 0.31 * i as f64));
                }
            }
            all.update_transforms();
        }
        9 => {
            let q: Vec<T> = (0..dof).map(|i| T::of(0.4 - 0.3 * i as f64)).collect();
            c.arm.set_joint_positions_clamped(&q);
        }
        10 => {
            k::jacobian(&c.arm);
            k::center_of_mass(&c.arm);
        }
        11 => {
            let ig = [c.m.nodes[c.path[0]].name.clone(), "nobody".into()];
            let _ = s.solve_with_constraints(&c.arm, &pose(Target::Near), &constraints(&[true; 6], &ig));
        }
        12 => {
            s.set_nullspace_function(Box::new(|q: &[T]| q.iter().map(|_| T::of(0.4)).collect()));
            let _ = s.solve(&c.arm, &pose(Target::Released));
            s.clear_nullspace_function();
        }
        13 => {
            let _ = s.solve(&c.arm, &pose(Target::Nan));
        }
        14 => {
            // the root is elsewhere for a while
            let o = c.nodes[0].origin();
            c.nodes[0].set_origin(k::Isometry3::translation(T::of(0.3), T::of(-1.), T::of(2.)));
            let all = k::Chain::from_root(c.nodes[0].clone());
            all.update_transforms();
            c.nodes[0].set_origin(o);
        }
        15 => {
            // the arm is another one for a while: same positions, other origins
            let tries = s.num_max_try;
            let ends = [c.path[c.path.len() / 2], *c.path.last().unwrap()];
            let os: Vec<_> = ends.iter().map(|i| c.nodes[*i].origin()).collect();
            c.reset();
            for (k, i) in ends.iter().enumerate() {
                c.nodes[*i].set_origin(k::Isometry3::translation(T::of(0.2), T::of(0.3), T::of(-0.4)) * os[k]);
            }
            s.num_max_try = 1;
            let _ = s.solve(&c.arm, &pose(Target::Far));
            c.reset();
            let mask = [true, true, true, false, false, false];
            let _ = s.solve_with_constraints(&c.arm, &pose(Target::Far), &constraints(&mask, &[]));
            for (k, i) in ends.iter().enumerate() {
                c.nodes[*i].set_origin(os[k]);
            }
            s.num_max_try = tries;
        }
        16 => {
            // other settings for a while
            let old = (s.num_max_try, s.jacobian_multiplier, s.allowable_target_distance, s.allowable_target_angle);
            s.num_max_try = 2;
            s.jacobian_multiplier = T::of(1.);
            s.allowable_target_distance = T::of(1e9);
            s.allowable_target_angle = T::of(1e9);
            let _ = s.solve(&c.arm, &pose(Target::Far));
            s.num_max_try = old.0;
            s.jacobian_multiplier = old.1;
            s.allowable_target_distance = old.2;
            s.allowable_target_angle = old.3;
        }
        17 => {
            // another robot, alike but for its origins and limits
            let mut m = c.m.clone();
            for n in m.nodes.iter_mut() {
                n.org.t[0] += 0.15;
                n.org.t[2] -= 0.1;
                n.limits = None;
            }
            let nodes = build::<T>(&m);
            let arm = SerialChain::new_unchecked(k::Chain::from_nodes(c.path.iter().map(|i| nodes[*i].clone()).collect()));
            let _ = s.solve(&arm, &pose(Target::Far));
            let mask = [true, true, true, false, false, false];
            let _ = s.solve_with_constraints(&arm, &pose(Target::Near), &constraints(&mask, &[]));
        }
        _ => {
            let q = other.joint_positions();
            let _ = other.set_joint_positions(&q);
            other.end_transform();
        }
    }
}
struct Call<'a> {
    a: &'a Arm,
    start: usize,
    target: Target,
    mask: [bool; 6],
    ii: usize,
    cfg: Cfg,
}
fn c29_fresh<T: Sc>(x: &Call) -> (Result<(), Error>, Vec<Option<T>>) {
    let c = case::<T>(x.a, x.start);
    let ig = c.names(&ignored_sets(c.mov.len())[x.ii]);
    let pose = iso_of_pose::<T>(&target_pose(&c.m, &c.path, &c.mov, x.target));
    let s = solver::<T>(&x.cfg, c.mov.len());
    let r = s.solve_with_constraints(&c.arm, &pose, &constraints(&x.mask, &ig));
    (r, positions(&c.nodes))
}
fn c29_compare<T: Sc>(what: &str, a: (&Result<(), Error>, &[Option<T>]), b: (&Result<(), Error>, &[Option<T>])) -> Result<(), String> {
    let tol = if T::TOL < 1e-6 { 1e-7 } else { 1e-3 };
    ensure!(same_kind(a.0, b.0), "fresh: {:?}, {}: {:?}", a.0, what, b.0);
    ensure!(close(a.1, b.1, tol), "fresh: {:?} {:?}, {}: {:?}", a.0, a.1, what, b.1);
    // what an error tells
    match (a.0, b.0) {
        (
            Err(Error::NotConvergedError { num_tried: n1, position_diff: p1, rotation_diff: r1 }),
            Err(Error::NotConvergedError { num_tried: n2, position_diff: p2, rotation_diff: r2 }),
        ) => {
            let d = (p1 - p2).norm().max((r1 - r2).norm());
            ensure!(n1 == n2 && (d <= tol * (1. + p1.norm()) || p1.iter().chain(r1.iter()).any(|x| !x.is_finite())), "fresh: {:?}, {}: {:?}", a.0, what, b.0);
        }
        (Err(x), Err(y)) => ensure!(format!("{:?}", x) == format!("{:?}", y), "fresh: {:?}, {}: {:?}", x, what, y),
        _ => {}
    }
    Ok(())
}
fn c29_hist<T: Sc>(x: &Call, ops: &[usize], ctx: &mut Ctx) -> Result<(), String> {
    let (r0, q0) = c29_fresh::<T>(x);
    let c = case::<T>(x.a, x.start);
    let ig = c.names(&ignored_sets(c.mov.len())[x.ii]);
    let pose = iso_of_pose::<T>(&target_pose(&c.m, &c.path, &c.mov, x.target));
    ctx.note(|| {
        format!(
            "{} {} start {:?} target {:?} mask {:?} ignored {:?} {:?} before: {:?}",
            T::NAME, x.a.name, x.a.starts[x.start], x.target, x.mask, ig, x.cfg, ops
        )
    });
    let other = serial(&c.nodes, x.a.end, x.a.root);
    // the null-space function of the solver must survive as well
    let plain = Cfg { nullspace: false, ..x.cfg };
    let mut s = solver::<T>(&plain, c.mov.len());
    for op in ops {
        hop(*op, &c, &mut s, &other);
        ctx.step();
    }
    if x.cfg.nullspace {
        s = solver::<T>(&x.cfg, c.mov.len());
    }
    c.reset();
    let r = s.solve_with_constraints(&c.arm, &pose, &constraints(&x.mask, &ig));
    let q = positions(&c.nodes);
    ctx.step();
    ctx.state();
    ctx.count(kind_of(&r));
    c29_compare("after the history", (&r0, &q0), (&r, &q))?;
    // through another handle of the same arm
    c.reset();
    let r = s.solve_with_constraints(&other, &pose, &constraints(&x.mask, &ig));
    c29_compare("by another handle", (&r0, &q0), (&r, &positions(&c.nodes)))?;
    // a copy of the arm
    if x.a.root.is_none() && !c.m.nodes.iter().any(|n| n.mimic.is_some()) {
        c.reset();
        let before = positions(&c.nodes);
        let k = c.arm.clone();
        let r = s.solve_with_constraints(&k, &pose, &constraints(&x.mask, &ig));
        let q: Vec<Option<T>> = k.iter().map(|n| n.joint_position()).collect();
        let want: Vec<Option<T>> = c.path.iter().map(|i| q0[*i]).collect();
        c29_compare("on a copy", (&r0, &want), (&r, &q))?;
        ensure!(bits(&before) == bits(&positions(&c.nodes)), "solving for the copy moved the original");
        ctx.step();
    }
    // `solve` is the call with all coordinates constrained
    if ig.is_empty() && x.mask.iter().all(|b| *b) {
        c.reset();
        let r = s.solve(&c.arm, &pose);
        c29_compare("by solve()", (&r0, &q0), (&r, &positions(&c.nodes)))?;
        c.reset();
        let r = s.solve_with_constraints(&c.arm, &pose, &Constraints::default());
        c29_compare("with the default constraints", (&r0, &q0), (&r, &positions(&c.nodes)))?;
        ctx.step();
    }
    Ok(())
}
fn c29(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let masks: [usize; 6] = [63, 7, 56, 0b010101, 0b011001, 1];
    let mk = move |name: &'static str, f32_: bool, depth: u32, calls: usize| {
        let arms = arms();
        let sets: Vec<Dims> = arm_sets(&arms, usize::MAX).into_iter().filter(|(_, i)| [0, 1, 3, 9].contains(i)).take(usize::MAX).collect();
        let hist: u64 = (1..=depth).map(|d| (HOPS as u64).pow(d)).sum();
        let (nt, nc) = if calls > 1 { (TARGETS.len(), 3) } else { (2, 1) };
        let nm = if calls > 1 { masks.len() } else { 2 };
        let sets = if calls > 1 { sets } else { sets.into_iter().filter(|(_, i)| *i == 0).collect() };
        let starts = if calls > 1 { 4 } else { 2 };
        space(
            name,
            hist * prod(&[sets.len(), starts, nt, nm, nc]),
            "arms x ignored joints x starts x targets x masks x settings x histories of updates, motions, calls that succeed or fail, and copies; each compared with the call on a fresh robot",
            move |i, ctx| {
                let mut d = Dec(i);
                let cfg = [CFGS[0], CFGS[4], CFGS[1]][d.take(nc)];
                let mask = mask_of(masks[d.take(nm)]);
                let target = if calls > 1 { TARGETS[d.take(nt)] } else { [Target::Near, Target::Far][d.take(nt)] };
                let start = d.take(starts);
                let (ai, ii) = *d.pick(&sets);
                let mut h = d.take(hist as usize) as u64;
                let a = &arms[ai];
                if start >= a.starts.len() || ii >= ignored_sets(a.movable().len()).len() {
                    return Ok(());
                }
                let mut len = 1;
                while h >= (HOPS as u64).pow(len) {
                    h -= (HOPS as u64).pow(len);
                    len += 1;
                }
                let ops: Vec<usize> = (0..len).map(|k| (h / (HOPS as u64).pow(k) % HOPS as u64) as usize).collect();
                let x = Call { a, start, target, mask, ii, cfg };
                if f32_ {
                    c29_hist::<f32>(&x, &ops, ctx)
                } else {
                    c29_hist::<f64>(&x, &ops, ctx)
                }
            },
        )
    };
    let long = {
        let arms = arms();
        let n = arms.len();
        let a = prod(&[n, HOPS, 2, 2]);
        const FEW: [usize; 5] = [0, 1, 3, 9, 10];
        space(
            "long",
            a + 2 * FEW.len() as u64,
            "arms x one thing of the history done 300 times x settings, five of them 66,000 times",
            move |i, ctx| {
                let (ai, op, times, target, cfg) = if i < a {
                    let mut d = Dec(i);
                    (d.take(n), d.take(HOPS), 300, [Target::Near, Target::Far][d.take(2)], [CFGS[0], CFGS[4]][d.take(2)])
                } else {
                    let mut d = Dec(i - a);
                    (n - 1, *d.pick(&FEW), 66_000, [Target::Near, Target::Far][d.take(2)], CFGS[0])
                };
                let x = Call { a: &arms[ai], start: 0, target, mask: [true; 6], ii: 0, cfg };
                c29_hist::<f64>(&x, &vec![op; times], ctx)
            },
        )
    };
    let mut spaces = vec![long, mk("calls_f64", false, 1, 2), mk("histories_f64", false, if q { 3 } else { 4 }, 1)];
    if !q {
        spaces.push(mk("wide_f64", false, 2, 2));
        spaces.push(mk("calls_f32", true, 1, 2));
    }
    Check {
        id: "C29",
        spaces,
        assumptions: vec![
            "outcomes are compared to 1e-7 (f32: 1e-3) with those on a freshly built robot in the same configuration",
            "copies are compared for whole arms without mimics",
        ],
    }
}

// ---------------------------------------------------------------- C32

fn c32_case<T: Sc>(a: &Arm, start: usize, target: Target, set: &[usize], mask: &[bool; 6], mult: f64, tries: usize, f: bool, ctx: &mut Ctx) -> Result<(), String> {
    let c = case::<T>(a, start);
    let ig = c.names(set);
    let goal = iso_of_pose::<T>(&target_pose(&c.m, &c.path, &c.mov, target));
    let cons = constraints(mask, &ig);
    let mut cfg = Cfg { dist: 1e-9, angle: 1e-9, mult, tries, nullspace: f };
    let res = solver::<T>(&cfg, c.mov.len()).solve_with_constraints(&c.arm, &goal, &cons);
    ctx.step();
    ctx.state();
    ctx.note(|| {
        format!(
            "{} {} start {:?} target {:?} mask {:?} ignored {:?} multiplier {} tries {} function {}: {:?}",
            T::NAME, a.name, a.starts[start], target, mask, ig, mult, tries, f, res
        )
    });
    ctx.count(kind_of(&res));
    let (n, dp, dr) = match &res {
        Err(Error::NotConvergedError { num_tried, position_diff, rotation_diff }) => (*num_tried, *position_diff, *rotation_diff),
        _ => return Ok(()),
    };
    ensure!(n == tries, "tried {} times, the error says {}", tries, n);
    // the tries one by one, through a solver that is content with anything
    cfg.dist = f64::INFINITY;
    cfg.angle = f64::INFINITY;
    cfg.tries = 1;
    let one = solver::<T>(&cfg, c.mov.len());
    c.reset();
    for k in 0..tries {
        let r = one.solve_with_constraints(&c.arm, &goal, &cons);
        ctx.step();
        if let Err(e) = r {
            return Err(format!("try {} alone ends with {:?}", k + 1, e));
        }
        if positions(&c.nodes).iter().flatten().any(|x| !(x.d().abs() < 1e6)) {
            ctx.count("not applicable: nearly singular, a step goes out of all bounds");
            return Ok(());
        }
    }
    let m = with_positions(&c.m, &positions(&c.nodes));
    let end = m.along(&c.path);
    let want = pose_of(&goal);
    let p = sub(want.p, end.p);
    let w = log_rot(&mm(&want.r, &tr(&end.r)));
    let slack = 100. * T::TOL * (extent(&m) + norm(p));
    for i in 0..3 {
        let x = if mask[i] { p[i] } else { 0. };
        ensure!(near((dp[i] - x).abs(), slack), "position difference {}: {} is left, the error says {}", i, x, dp[i]);
    }
    // half a turn can be written in two ways
    if norm(w) < PI - 0.01 {
        for i in 0..3 {
            let x = if mask[i + 3] { w[i] } else { 0. };
            ensure!(near((dr[i] - x).abs(), slack), "rotation difference {}: {} is left, the error says {}", i, x, dr[i]);
        }
    }
    let text = res.unwrap_err().to_string();
    ensure!(text.contains(&n.to_string()), "the text {:?} does not show the number of tries", text);
    Ok(())
}
fn c32(t: Tier) -> Check {
    let q = t == Tier::Quick;
    let mk = move |name: &'static str, f32_: bool| {
        let arms = arms();
        let sets = arm_sets(&arms, if q { 10 } else { usize::MAX });
        let targets = [Target::Near, Target::Far, Target::Unreachable, Target::Turned, Target::Released];
        let tries: Vec<usize> = if q { vec![0, 1, 3] } else { vec![0, 1, 2, 3, 5, 9] };
        let mults: Vec<f64> = if q { vec![0.5] } else { vec![0.2, 0.5, 1.0, 1.5] };
        let len = prod(&[sets.len(), 4, targets.len(), 63, tries.len(), mults.len()]);
        space(name, len, "arms x ignored joints x starts x targets x all constrained subsets x numbers of tries x multipliers", move |i, ctx| {
            let mut d = Dec(i);
            let mult = *d.pick(&mults);
            let tries = *d.pick(&tries);
            let mask = mask_of(d.take(63) + 1);
            let target = *d.pick(&targets);
            let start = d.take(4);
            let (ai, ii) = *d.pick(&sets);
            let a = &arms[ai];
            if start >= a.starts.len() {
                return Ok(());
            }
            let set = ignored_sets(a.movable().len())[ii].clone();
            let f = i % 5 == 0;
            if f32_ {
                c32_case::<f32>(a, start, target, &set, &mask, mult, tries, f, ctx)
            } else {
                c32_case::<f64>(a, start, target, &set, &mask, mult, tries, f, ctx)
            }
        })
    };
    // the texts: every error of every operation, with several names and numbers
    let names = ["j", "", "an arm's 3rd joint", "関節"];
    let texts = space("texts", prod(&[4, 9, 6]), "the texts of all errors x joint names x numbers", move |i, ctx| {
        let mut d = Dec(i);
        let name = names[d.take(4)];
        let x = [0.5, -2.25, 1e9, 0.1, 123456.75, 0.123456789, 1.0004, -3e-7, 1e-12][d.take(9)];
        let kind = d.take(6);
        let mk = |name: &str, kind: Kind| {
            let mut n = nd(name, kind, [0.1, 0.2, 0.3], None);
            n.limits = if kind.movable() { Some((x + 0.375, x + 2.5)) } else { None };
            n.q = if kind.movable() { x + 1. } else { 0. };
            build::<f64>(&Model { nodes: vec![n] })
        };
        let (err, parts): (Error, Vec<String>) = match kind {
            0 => {
                let r = mk(name, Kind::Rot(Z));
                let e = r[0].set_joint_position(x).unwrap_err();
                (e, vec![name.to_string(), format!("{}", x), format!("{}", x + 0.375), format!("{}", x + 2.5)])
            }
            1 => {
                let r = mk(name, Kind::Lin(Z));
                let e = Chain::from_root(r[0].clone()).set_joint_positions(&[x]).unwrap_err();
                (e, vec![name.to_string(), format!("{}", x), format!("{}", x + 0.375), format!("{}", x + 2.5)])
            }
            2 => (mk(name, Kind::Fixed)[0].set_joint_position(x).unwrap_err(), vec![name.to_string()]),
            3 => {
                let r = mk(name, Kind::Rot(Z));
                let n = 2 + i as usize % 11;
                (Chain::from_root(r[0].clone()).set_joint_positions(&vec![x; n]).unwrap_err(), vec![n.to_string(), "1".to_string()])
            }
            4 => {
                let r = mk("only", Kind::Rot(Z));
                let c = Constraints { ignored_joint_names: vec![format!("no {}", name)], ..Constraints::default() };
                let arm = SerialChain::from_end(&r[0]);
                let e = JacobianIkSolver::default().solve_with_constraints(&arm, &arm.end_transform(), &c).unwrap_err();
                (e, vec![format!("no {}", name)])
            }
            _ => {
                let r = mk(name, Kind::Rot(Z));
                let arm = SerialChain::from_end(&r[0]);
                let mask = mask_of([7, 63, 56, 3, 31][i as usize % 5]);
                let e = JacobianIkSolver::default().solve_with_constraints(&arm, &arm.end_transform(), &constraints(&mask, &[])).unwrap_err();
                (e, vec!["1".to_string(), mask.iter().filter(|x| **x).count().to_string()])
            }
        };
        ctx.state();
        let text = err.to_string();
        ctx.note(|| format!("{:?}: {}", err, text));
        for p in &parts {
            ensure!(text.contains(p), "the text {:?} does not show {:?}", text, p);
        }
        // two counts: what was given, and what is needed, whichever is called so
        if kind == 3 || kind == 5 {
            for (k, words) in [(0, ["input", "given"]), (1, ["require", "necessary"])] {
                for w in words {
                    if let Some(at) = text.find(w) {
                        let number: String = text[at..].chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
                        ensure!(number == parts[k], "the text {:?} says {:?} {} instead of {}", text, w, number, parts[k]);
                    }
                }
            }
        }
        Ok(())
    });
    Check {
        id: "C32",
        spaces: vec![
            mk("left_f64", false),
            mk("left_f32", true),
            long_space(
                &[Target::Far, Target::Unreachable],
                &[(0.001, 255), (0.001, 256), (0.001, 257), (0.5, 300), (0.001, 1000)],
                &[(0.001, 65_536), (0.00001, 65_537)],
                |a, start, target, mask, cfg, ctx| c32_case::<f64>(a, start, target, &[], mask, cfg.mult, cfg.tries, false, ctx),
            ),
            every_space(t, &[0, 1, 2, 3, 4, 5], &[Target::Far, Target::Unreachable], &[0], |(a, ii, start, target, mask, cfg), ctx| {
                let set = ignored_sets(a.movable().len())[ii].clone();
                c32_case::<f64>(a, start, target, &set, &mask, cfg.mult, 2, false, ctx)
            }),
            texts,
        ],
        assumptions: vec![
            "the pose after the last try is found by repeating the tries one by one with a solver that accepts any result; differences are computed by the reference model",
            "rotation differences of half a turn are not compared",
        ],
    }
}

fn main() {
    main_with(|id, t| match id {
        "C16" => Some(c16(t)),
        "C17" => Some(c17(t)),
        "C18" => Some(c18(t)),
        "C19" => Some(c19(t)),
        "C20" => Some(c20(t)),
        "C32" => Some(c32(t)),
        "C29" => Some(c29(t)),
        _ => None,
    })
}
