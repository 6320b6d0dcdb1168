// Input file handling shared by both builds.
//   v NAME VALUE   symbolic variable (concrete value for the concolic run)
//   c NAME VALUE   constant input
//   l NAME OTHER   NAME is the same input as OTHER
//   s N            seed for inputs that are not listed
//   a              inputs that are not listed are constants
//   f IDX 0|1      force the outcome of decision IDX            (symbolic build)
//   w IDX VALUE    override witness IDX after synthesis          (real build)
//   z IDX VALUE    override column IDX (public inputs, then witnesses) after synthesis (real build)
use std::collections::HashMap;

#[derive(Default)]
pub struct Input {
    pub vals: HashMap<String, (bool, String)>,
    pub seed: u64,
    pub rest_const: bool,
    pub alias: HashMap<String, String>,
    pub force: Vec<(usize, bool)>,
    pub witness: Vec<(usize, String)>,
    pub columns: Vec<(usize, String)>,
}

pub fn parse(path: &str) -> Input {
    let mut i = Input::default();
    if path == "-" {
        return i;
    }
    for l in std::fs::read_to_string(path).expect("input file").lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        match f.first().copied() {
            Some("v") => {
                i.vals.insert(f[1].into(), (false, f[2].into()));
            }
            Some("c") => {
                i.vals.insert(f[1].into(), (true, f[2].into()));
            }
            Some("l") => {
                i.alias.insert(f[1].into(), f[2].into());
            }
            Some("s") => i.seed = f[1].parse().expect("seed"),
            Some("a") => i.rest_const = true,
            Some("f") => i.force.push((f[1].parse().expect("idx"), f[2] == "1")),
            Some("w") => i.witness.push((f[1].parse().expect("idx"), f[2].into())),
            Some("z") => i.columns.push((f[1].parse().expect("idx"), f[2].into())),
            None => {}
            x => panic!("bad input line {:?}", x),
        }
    }
    i
}

/// Deterministic 252-bit default value of an input, as hex.
pub fn default_value(name: &str, seed: u64) -> String {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9e3779b97f4a7c15);
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut next = || {
        h = h.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = h;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    };
    format!("0x{:016x}{:016x}{:016x}{:016x}", next() >> 4, next(), next(), next())
}
