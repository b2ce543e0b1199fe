//! The reference model: kinematics restated with plain f64 arrays.
//! It uses neither k nor nalgebra.

pub type V3 = [f64; 3];
pub type M3 = [[f64; 3]; 3];

pub const I3: M3 = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]];

pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale(a: V3, s: f64) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn norm(a: V3) -> f64 {
    dot(a, a).sqrt()
}
pub fn cross(a: V3, b: V3) -> V3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn unit(a: V3) -> V3 {
    scale(a, 1.0 / norm(a))
}
pub fn mv(m: &M3, v: V3) -> V3 {
    [dot(m[0], v), dot(m[1], v), dot(m[2], v)]
}
pub fn mm(a: &M3, b: &M3) -> M3 {
    let mut r = [[0.; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    r
}
pub fn tr(a: &M3) -> M3 {
    let mut r = [[0.; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[j][i];
        }
    }
    r
}
/// Rodrigues
pub fn rot(axis: V3, angle: f64) -> M3 {
    let [x, y, z] = axis;
    let (s, c) = angle.sin_cos();
    let t = 1. - c;
    [
        [t * x * x + c, t * x * y - s * z, t * x * z + s * y],
        [t * x * y + s * z, t * y * y + c, t * y * z - s * x],
        [t * x * z - s * y, t * y * z + s * x, t * z * z + c],
    ]
}
/// Rotation vector of a rotation matrix (angle in [0, pi])
pub fn log_rot(r: &M3) -> V3 {
    let c = ((r[0][0] + r[1][1] + r[2][2] - 1.0) / 2.0).clamp(-1., 1.);
    let v = [r[2][1] - r[1][2], r[0][2] - r[2][0], r[1][0] - r[0][1]];
    let s = norm(v) / 2.0;
    let angle = s.atan2(c);
    if s > 1e-9 {
        return scale(v, angle / (2.0 * s));
    }
    if c > 0. {
        return scale(v, 0.5);
    }
    // angle = pi: r = 2 a a^T - 1
    let d = [
        ((r[0][0] + 1.) / 2.).max(0.).sqrt(),
        ((r[1][1] + 1.) / 2.).max(0.).sqrt(),
        ((r[2][2] + 1.) / 2.).max(0.).sqrt(),
    ];
    let i = if d[0] >= d[1] && d[0] >= d[2] {
        0
    } else if d[1] >= d[2] {
        1
    } else {
        2
    };
    let mut a = [0.; 3];
    for j in 0..3 {
        a[j] = if j == i {
            d[i]
        } else {
            r[i][j] / (2. * d[i])
        };
    }
    scale(a, angle)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pose {
    pub r: M3,
    pub p: V3,
}
impl Pose {
    pub const ID: Pose = Pose { r: I3, p: [0.; 3] };
    pub fn mul(&self, o: &Pose) -> Pose {
        Pose {
            r: mm(&self.r, &o.r),
            p: add(self.p, mv(&self.r, o.p)),
        }
    }
    pub fn inv(&self) -> Pose {
        let r = tr(&self.r);
        Pose {
            r,
            p: scale(mv(&r, self.p), -1.),
        }
    }
}

/// An origin: translation and axis/angle
#[derive(Clone, Copy, Debug)]
pub struct Org {
    pub t: V3,
    pub axis: V3,
    pub angle: f64,
}
impl Org {
    pub const ID: Org = Org {
        t: [0.; 3],
        axis: [0., 0., 1.],
        angle: 0.,
    };
    pub fn pose(&self) -> Pose {
        Pose {
            r: rot(unit(self.axis), self.angle),
            p: self.t,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Fixed,
    Rot(V3),
    Lin(V3),
}
impl Kind {
    pub fn movable(&self) -> bool {
        !matches!(self, Kind::Fixed)
    }
}

#[derive(Clone, Debug)]
pub struct MLink {
    pub name: String,
    pub mass: f64,
    pub inertial: Org,
    pub visuals: Vec<Org>,
    pub collisions: Vec<Org>,
}

#[derive(Clone, Debug)]
pub struct MNode {
    pub name: String,
    pub kind: Kind,
    pub org: Org,
    pub q: f64,
    pub qd: f64,
    pub limits: Option<(f64, f64)>,
    pub parent: Option<usize>,
    pub link: Option<MLink>,
    /// driver, multiplier, offset
    pub mimic: Option<(usize, f64, f64)>,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub nodes: Vec<MNode>,
}

impl Model {
    pub fn local(&self, i: usize) -> Pose {
        let n = &self.nodes[i];
        let j = match n.kind {
            Kind::Fixed => Pose::ID,
            Kind::Rot(a) => Pose {
                r: rot(unit(a), n.q),
                p: [0.; 3],
            },
            Kind::Lin(a) => Pose {
                r: I3,
                p: scale(unit(a), n.q),
            },
        };
        n.org.pose().mul(&j)
    }
    /// Path from the root to `i`
    pub fn path(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        let mut c = i;
        while let Some(p) = self.nodes[c].parent {
            v.push(p);
            c = p;
        }
        v.reverse();
        v
    }
    pub fn world(&self, i: usize) -> Pose {
        self.path(i)
            .iter()
            .fold(Pose::ID, |t, j| t.mul(&self.local(*j)))
    }
    /// Product over a sequence of nodes
    pub fn along(&self, path: &[usize]) -> Pose {
        path.iter().fold(Pose::ID, |t, j| t.mul(&self.local(*j)))
    }
    pub fn children(&self, i: usize) -> Vec<usize> {
        (0..self.nodes.len())
            .filter(|c| self.nodes[*c].parent == Some(i))
            .collect()
    }
    pub fn subtree(&self, i: usize) -> Vec<usize> {
        if i == 0 && self.nodes[0].parent.is_none() && self.nodes.iter().skip(1).all(|n| n.parent.is_some()) {
            return (0..self.nodes.len()).collect();
        }
        (0..self.nodes.len())
            .filter(|c| self.path(*c).contains(&i))
            .collect()
    }
    /// Columns of the Jacobian of the end pose of `path` in the frame above its first joint
    pub fn jacobian(&self, path: &[usize]) -> Vec<[f64; 6]> {
        let end = self.along(path);
        let mut cols = vec![];
        let mut t = Pose::ID;
        for j in path {
            t = t.mul(&self.local(*j));
            match self.nodes[*j].kind {
                Kind::Fixed => {}
                Kind::Rot(a) => {
                    let w = mv(&t.r, unit(a));
                    let v = cross(w, sub(end.p, t.p));
                    cols.push([v[0], v[1], v[2], w[0], w[1], w[2]]);
                }
                Kind::Lin(a) => {
                    let v = mv(&t.r, unit(a));
                    cols.push([v[0], v[1], v[2], 0., 0., 0.]);
                }
            }
        }
        cols
    }
    /// World velocity: the sum of what each joint between the root and `i` contributes
    pub fn velocity(&self, i: usize) -> (V3, V3) {
        let path = self.path(i);
        let end = self.world(i);
        let (mut v, mut w) = ([0.; 3], [0.; 3]);
        let mut t = Pose::ID;
        for j in &path {
            t = t.mul(&self.local(*j));
            match self.nodes[*j].kind {
                Kind::Fixed => {}
                Kind::Rot(a) => {
                    let wi = scale(mv(&t.r, unit(a)), self.nodes[*j].qd);
                    w = add(w, wi);
                    v = add(v, cross(wi, sub(end.p, t.p)));
                }
                Kind::Lin(a) => v = add(v, scale(mv(&t.r, unit(a)), self.nodes[*j].qd)),
            }
        }
        (v, w)
    }
    /// The same, by central differences of the pose
    pub fn velocity_numeric(&self, i: usize) -> (V3, V3) {
        let h = 1e-5;
        let mut a = self.clone();
        let mut b = self.clone();
        for n in 0..self.nodes.len() {
            a.nodes[n].q += h * self.nodes[n].qd;
            b.nodes[n].q -= h * self.nodes[n].qd;
        }
        let (pa, pb) = (a.world(i), b.world(i));
        let v = scale(sub(pa.p, pb.p), 0.5 / h);
        let w = scale(log_rot(&mm(&pa.r, &tr(&pb.r))), 0.5 / h);
        (v, w)
    }
    pub fn com(&self, nodes: &[usize]) -> V3 {
        let (mut m, mut c) = (0., [0.; 3]);
        for i in nodes {
            if let Some(l) = &self.nodes[*i].link {
                let t = self.world(*i).mul(&l.inertial.pose());
                c = add(c, scale(t.p, l.mass));
                m += l.mass;
            }
        }
        scale(c, 1. / m)
    }
    pub fn followers(&self, i: usize) -> Vec<usize> {
        (0..self.nodes.len())
            .filter(|c| matches!(self.nodes[*c].mimic, Some((d, _, _)) if d == i))
            .collect()
    }
    /// All nodes and positions a checked command would write; None if it must be rejected
    pub fn checked(&self, i: usize, q: f64) -> Option<Vec<(usize, f64)>> {
        let n = &self.nodes[i];
        if !n.kind.movable() {
            return None;
        }
        if let Some((lo, hi)) = n.limits {
            if !(q >= lo && q <= hi) {
                return None;
            }
        }
        let mut v = vec![(i, q)];
        for c in self.followers(i) {
            let (_, m, o) = self.nodes[c].mimic.unwrap();
            v.extend(self.checked(c, q * m + o)?);
        }
        Some(v)
    }
    pub fn clamped(&self, i: usize, q: f64) -> Vec<(usize, f64)> {
        let n = &self.nodes[i];
        if !n.kind.movable() {
            return vec![];
        }
        let q = match n.limits {
            Some((lo, hi)) => {
                if q < lo {
                    lo
                } else if q > hi {
                    hi
                } else {
                    q
                }
            }
            None => q,
        };
        let mut v = vec![(i, q)];
        for c in self.followers(i) {
            let (_, m, o) = self.nodes[c].mimic.unwrap();
            v.extend(self.clamped(c, q * m + o));
        }
        v
    }
    pub fn apply(&mut self, w: &[(usize, f64)]) {
        for (i, q) in w {
            self.nodes[*i].q = *q;
        }
    }
    pub fn key(&self) -> u64 {
        let mut v = vec![];
        for n in &self.nodes {
            v.push(n.q.to_bits());
            v.push(n.qd.to_bits());
            v.push(n.parent.map_or(u64::MAX, |x| x as u64));
            for x in n.org.t.iter().chain(n.org.axis.iter()) {
                v.push(x.to_bits());
            }
            v.push(n.org.angle.to_bits());
            match n.kind {
                Kind::Fixed => v.push(0),
                Kind::Rot(a) => {
                    v.push(1);
                    v.extend(a.iter().map(|x| x.to_bits()))
                }
                Kind::Lin(a) => {
                    v.push(2);
                    v.extend(a.iter().map(|x| x.to_bits()))
                }
            }
            match n.mimic {
                None => v.push(0),
                Some((d, m, o)) => v.extend([1, d as u64, m.to_bits(), o.to_bits()]),
            }
            match n.limits {
                None => v.push(0),
                Some((a, b)) => v.extend([1, a.to_bits(), b.to_bits()]),
            }
        }
        super::fw::hash_of(&v)
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (i, n) in self.nodes.iter().enumerate() {
            s.push_str(&format!(
                "{}: '{}' {:?} parent={:?} org=({:?} {:?} {}) q={} qd={} limits={:?} mimic={:?} link={}\n",
                i,
                n.name,
                n.kind,
                n.parent,
                n.org.t,
                n.org.axis,
                n.org.angle,
                n.q,
                n.qd,
                n.limits,
                n.mimic,
                n.link.as_ref().map_or("-".to_string(), |l| format!("{}({} kg)", l.name, l.mass))
            ));
        }
        s
    }
}

/// All parent arrays with parent[i] < i: every rooted tree on n nodes that is built root first
pub fn shapes(n: usize) -> Vec<Vec<Option<usize>>> {
    let mut out = vec![vec![None]];
    for i in 1..n {
        let mut next = vec![];
        for s in &out {
            for p in 0..i {
                let mut t = s.clone();
                t.push(Some(p));
                next.push(t);
            }
        }
        out = next;
    }
    out
}

pub fn kinds3(n: usize, mut code: u64) -> Vec<u8> {
    (0..n)
        .map(|_| {
            let k = (code % 3) as u8;
            code /= 3;
            k
        })
        .collect()
}

pub const AXES: [V3; 13] = [
    [1., 0., 0.],
    [0., 1., 0.],
    [0., 0., 1.],
    [-1., 0., 0.],
    [0., -1., 0.],
    [0., 0., -1.],
    [1., 1., 0.],
    [0., 1., -1.],
    [1., 0., 1.],
    [1., 1., 1.],
    [-1., 2., -3.],
    [0.1, -0.2, 0.97],
    [3., 0., -4.],
];
pub const PI: f64 = std::f64::consts::PI;
pub const QS: [f64; 15] = [
    0.0,
    0.1,
    -0.1,
    0.5,
    -0.7,
    1.0,
    PI / 2.,
    -PI / 2.,
    2.0,
    PI,
    -PI,
    3.5,
    -5.0,
    2. * PI,
    100.0,
];
pub const ORGS: [Org; 10] = [
    Org::ID,
    Org { t: [0., 0., 0.5], axis: [0., 0., 1.], angle: 0. },
    Org { t: [0.3, -0.2, 0.1], axis: [0., 0., 1.], angle: 0. },
    Org { t: [0., 0., 0.], axis: [1., 0., 0.], angle: PI / 2. },
    Org { t: [0.2, 0., 0.], axis: [0., 1., 0.], angle: -PI / 2. },
    Org { t: [0., 0.4, 0.], axis: [0., 0., 1.], angle: PI },
    Org { t: [0.1, 0.2, -0.3], axis: [1., 1., 1.], angle: 0.7 },
    Org { t: [-0.5, 0.25, 0.75], axis: [1., -2., 0.5], angle: 2.5 },
    Org { t: [1000., 0., -1000.], axis: [0., 1., 0.], angle: 0.3 },
    Org { t: [0.001, 0., 0.002], axis: [0., 0.6, 0.8], angle: -3.0 },
];

/// Eigenvalues and vectors (columns) of a symmetric matrix, by Jacobi rotations
pub fn eigen(a: &[Vec<f64>]) -> (Vec<f64>, Vec<Vec<f64>>) {
    let n = a.len();
    let mut a: Vec<Vec<f64>> = a.to_vec();
    let mut v: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| (i == j) as u8 as f64).collect()).collect();
    for _ in 0..100 {
        let mut off = 0.;
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    off += a[i][j] * a[i][j];
                }
            }
        }
        if off < 1e-30 {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                if a[p][q].abs() < 1e-300 {
                    continue;
                }
                let theta = (a[q][q] - a[p][p]) / (2. * a[p][q]);
                let t = if theta == 0. {
                    1.
                } else {
                    theta.signum() / (theta.abs() + (theta * theta + 1.).sqrt())
                };
                let c = 1. / (t * t + 1.).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (v[k][p], v[k][q]);
                    v[k][p] = c * x - s * y;
                    v[k][q] = s * x + c * y;
                }
            }
        }
    }
    ((0..n).map(|i| a[i][i]).collect(), v)
}
/// The task Jacobian: rows `mask`, columns `free`, of the columns `cols`
pub fn task(cols: &[[f64; 6]], mask: &[bool; 6], free: &[usize]) -> Vec<Vec<f64>> {
    (0..6)
        .filter(|r| mask[*r])
        .map(|r| free.iter().map(|c| cols[*c][r]).collect())
        .collect()
}
fn gram_rows(j: &[Vec<f64>]) -> Vec<Vec<f64>> {
    j.iter().map(|a| j.iter().map(|b| a.iter().zip(b).map(|(x, y)| x * y).sum()).collect()).collect()
}
/// Singular values (as many as rows)
pub fn singular(j: &[Vec<f64>]) -> Vec<f64> {
    if j.is_empty() {
        return vec![];
    }
    eigen(&gram_rows(j)).0.iter().map(|x| x.max(0.).sqrt()).collect()
}
/// Pseudo-inverse times a vector; singular values below `eps` count as zero
pub fn pinv_mul(j: &[Vec<f64>], e: &[f64], eps: f64) -> Vec<f64> {
    let n = j[0].len();
    let (l, v) = eigen(&gram_rows(j));
    let mut y = vec![0.; j.len()];
    for k in 0..l.len() {
        if l[k].max(0.).sqrt() > eps {
            let d: f64 = (0..j.len()).map(|r| v[r][k] * e[r]).sum::<f64>() / l[k];
            for r in 0..j.len() {
                y[r] += v[r][k] * d;
            }
        }
    }
    (0..n).map(|c| (0..j.len()).map(|r| j[r][c] * y[r]).sum()).collect()
}
/// Projection of x onto the null space of j
pub fn null_project(j: &[Vec<f64>], x: &[f64], eps: f64) -> Vec<f64> {
    let jx: Vec<f64> = j.iter().map(|r| r.iter().zip(x).map(|(a, b)| a * b).sum()).collect();
    let p = pinv_mul(j, &jx, eps);
    x.iter().zip(&p).map(|(a, b)| a - b).collect()
}
