//! C21: constraints read from data.
use k::Constraints;
use kmc::ensure;
use kmc::fw::*;

const KEYS: [&str; 6] = ["position_x", "position_y", "position_z", "rotation_x", "rotation_y", "rotation_z"];
const LISTS: [Option<&[&str]>; 9] = [
    None,
    Some(&[]),
    Some(&["a"]),
    Some(&["r_elbow_pitch", "position_x"]),
    Some(&["a", "a"]),
    Some(&["", "with \"quotes\" and \\", "ü\n"]),
    Some(&["j0", "j1", "j2", "j3", "j4", "j5", "j6", "j7"]),
    Some(&["b", "A", "a", " a", "a ", "b", "true", "0", "\t"]),
    Some(&["z/y", "null", "rotation_z", "ignored_joint_names", "\u{1F916}", "\u{0}x"]),
];

fn fields(c: &Constraints) -> ([bool; 6], Vec<String>) {
    (
        [c.position_x, c.position_y, c.position_z, c.rotation_x, c.rotation_y, c.rotation_z],
        c.ignored_joint_names.clone(),
    )
}
/// values[i]: absent, true, false
fn text(values: &[usize; 6], list: Option<&[&str]>, order: &[usize], pretty: bool) -> String {
    let mut parts = vec![];
    for i in order {
        if *i < 6 {
            match values[*i] {
                0 => {}
                v => parts.push(format!("\"{}\": {}", KEYS[*i], v == 1)),
            }
        } else if let Some(l) = list {
            let l: Vec<String> = l.iter().map(|x| serde_json::to_string(x).unwrap()).collect();
            parts.push(format!("\"ignored_joint_names\": [{}]", l.join(", ")));
        }
    }
    if pretty {
        format!("{{\n  {}\n}}", parts.join(",\n  "))
    } else {
        format!("{{{}}}", parts.join(","))
    }
}
fn check(values: &[usize; 6], list: Option<&[&str]>, order: &[usize], pretty: bool, ctx: &mut Ctx) -> Result<(), String> {
    let t = text(values, list, order, pretty);
    ctx.note(|| t.clone());
    let want: ([bool; 6], Vec<String>) = (
        [0, 1, 2, 3, 4, 5].map(|i: usize| values[i] != 2),
        list.unwrap_or(&[]).iter().map(|x| x.to_string()).collect(),
    );
    let same = |what: &str, c: Result<Constraints, serde_json::Error>| -> Result<Constraints, String> {
        let c = c.map_err(|e| format!("{} fails: {}", what, e))?;
        ensure!(fields(&c) == want, "{} gives {:?} instead of {:?}", what, fields(&c), want);
        Ok(c)
    };
    let c = same("reading", serde_json::from_str(&t))?;
    ctx.step();
    let s = serde_json::to_string(&c).map_err(|e| format!("writing fails: {}", e))?;
    ctx.step();
    ensure!(fields(&c) == want, "writing changes the constraints");
    same(&format!("reading back {}", s), serde_json::from_str(&s))?;
    ctx.step();
    // through a value, whose keys are sorted
    let v: serde_json::Value = serde_json::from_str(&t).unwrap();
    same("reading a value", serde_json::from_value(v))?;
    ctx.step();
    let v = serde_json::to_value(&c).map_err(|e| format!("writing a value fails: {}", e))?;
    same("reading a value back", serde_json::from_value(v))?;
    let mut r = serde_json::Deserializer::from_reader(s.as_bytes());
    let mut c2 = c.clone();
    same("reading a stream", <Constraints as serde::Deserialize>::deserialize(&mut r))?;
    // over what was there before
    c2.ignored_joint_names.push("old".to_string());
    let mut r = serde_json::Deserializer::from_str(&t);
    let read = <Constraints as serde::Deserialize>::deserialize_in_place(&mut r, &mut c2);
    same("reading in place", read.map(|_| c2))?;
    ctx.state();
    ctx.step();
    Ok(())
}
/// another format, for which the keys come in the order of the fields
fn check_toml(values: &[usize; 6], list: Option<&[&str]>, ctx: &mut Ctx) -> Result<(), String> {
    let mut t = String::new();
    for i in 0..6 {
        if values[i] != 0 {
            t += &format!("{} = {}\n", KEYS[i], values[i] == 1);
        }
    }
    if let Some(l) = list {
        t += &format!("ignored_joint_names = {}\n", toml::Value::Array(l.iter().map(|x| toml::Value::from(*x)).collect()));
    }
    ctx.note(|| t.clone());
    let want: ([bool; 6], Vec<String>) =
        ([0, 1, 2, 3, 4, 5].map(|i: usize| values[i] != 2), list.unwrap_or(&[]).iter().map(|x| x.to_string()).collect());
    let c: Constraints = toml::from_str(&t).map_err(|e| format!("reading TOML fails: {}", e))?;
    ensure!(fields(&c) == want, "TOML gives {:?} instead of {:?}", fields(&c), want);
    let s = toml::to_string(&c).map_err(|e| format!("writing TOML fails: {}", e))?;
    let c: Constraints = toml::from_str(&s).map_err(|e| format!("reading TOML back fails: {}", e))?;
    ensure!(fields(&c) == want, "TOML read back gives {:?} instead of {:?}", fields(&c), want);
    ctx.state();
    ctx.step();
    Ok(())
}
fn check_long(i: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut d = Dec(i);
    let (n, len) = ([0usize, 1, 15, 16, 17, 31, 32, 33, 64, 255, 256, 257, 300, 5000][d.take(14)], [1usize, 7, 63, 64, 255, 256, 5000][d.take(7)]);
    let same = d.take(2) == 1;
    let names: Vec<String> = (0..n).map(|k| format!("{:>1$}", if same { 7 } else { n - k }, len)).collect();
    let refs: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
    ctx.note(|| format!("{} names of {} letters", n, len));
    if n * len > 3_000_000 {
        return Ok(());
    }
    check_quiet(&[0, 1, 2, 0, 2, 1], &refs, ctx)
}
fn check_quiet(values: &[usize; 6], list: &[&str], ctx: &mut Ctx) -> Result<(), String> {
    let t = text(values, Some(list), &[0, 1, 2, 3, 4, 5, 6], false);
    let c: Constraints = serde_json::from_str(&t).map_err(|e| format!("reading fails: {}", e))?;
    ensure!(c.ignored_joint_names == list, "other names were read");
    let s = serde_json::to_string(&c).map_err(|e| format!("writing fails: {}", e))?;
    let b: Constraints = serde_json::from_str(&s).map_err(|e| format!("reading back fails: {}", e))?;
    ensure!(fields(&b) == fields(&c), "read back differently");
    ctx.state();
    ctx.step();
    Ok(())
}
fn permutation(n: usize, mut code: u64) -> Vec<usize> {
    let mut rest: Vec<usize> = (0..n).collect();
    let mut v = vec![];
    for i in (1..=n).rev() {
        v.push(rest.remove((code % i as u64) as usize));
        code /= i as u64;
    }
    v
}

fn main() {
    main_with(|id, t| {
        if id != "C21" {
            return None;
        }
        let orders: u64 = if t == Tier::Thorough { 5040 } else { 24 };
        Some(Check {
            id: "C21",
            spaces: vec![
                space(
                    "fields",
                    729 * LISTS.len() as u64 * orders,
                    "every field absent, true or false, nine ignore lists (also absent), many key orders",
                    move |i, ctx| {
                        let mut d = Dec(i);
                        let mut v = [0; 6];
                        for x in v.iter_mut() {
                            *x = d.take(3);
                        }
                        let list = *d.pick(&LISTS);
                        // 211 is coprime to 5040: distinct orders
                        let order = permutation(7, d.0 * 211 % 5040);
                        check(&v, list, &order, i % 2 == 1, ctx)
                    },
                ),
                space(
                    "key-orders",
                    5040 * 64,
                    "all fields present with every combination of values, in every order of the keys",
                    |i, ctx| {
                        let mut d = Dec(i);
                        let mut v = [0; 6];
                        for x in v.iter_mut() {
                            *x = 1 + d.take(2);
                        }
                        let order = permutation(7, d.0);
                        check(&v, LISTS[3], &order, false, ctx)
                    },
                ),
                space("toml", 729 * LISTS.len() as u64, "every field absent, true or false, the ignore lists, in TOML", |i, ctx| {
                    let mut d = Dec(i);
                    let mut v = [0; 6];
                    for x in v.iter_mut() {
                        *x = d.take(3);
                    }
                    check_toml(&v, *d.pick(&LISTS), ctx)
                }),
                space("long", 14 * 7 * 2, "up to 5000 names of up to 5000 letters", check_long),
            ],
            assumptions: vec!["the data formats are JSON (serde_json) and TOML (toml)"],
        })
    })
}
