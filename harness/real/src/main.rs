#[path = "../../common/env_common.rs"]
mod env_common;
#[cfg(feature = "r1cs")]
#[path = "../../common/gadget.rs"]
mod gadget;
#[path = "../../common/jobs.rs"]
mod jobs;

/// Real environment: inputs and observations are real field elements.
pub mod env {
    use super::env_common::*;
    use decaf377::Fq;
    use std::cell::RefCell;
    thread_local! {
        pub static INPUT: RefCell<Input> = RefCell::new(Input::default());
        pub static OUT: RefCell<Vec<String>> = RefCell::new(Vec::new());
    }
    pub fn parse_fq(s: &str) -> Fq {
        let mut acc = Fq::from(0u64);
        let (digits, base) = match s.strip_prefix("0x") {
            Some(h) => (h, 16u64),
            None => (s, 10),
        };
        for c in digits.chars() {
            acc = acc * Fq::from(base) + Fq::from(c.to_digit(base as u32).expect("digit") as u64);
        }
        acc
    }
    pub fn hex(v: &Fq) -> String {
        let mut s = String::from("0x");
        for b in v.to_bytes_le().iter().rev() {
            s.push_str(&format!("{:02x}", b));
        }
        s
    }
    pub fn var(name: &str) -> Fq {
        INPUT.with(|i| {
            let i = i.borrow();
            let name = i.alias.get(name).map(|s| s.as_str()).unwrap_or(name);
            parse_fq(&match i.vals.get(name) {
                Some((_, v)) => v.clone(),
                None => default_value(name, i.seed),
            })
        })
    }
    pub fn line(s: String) {
        OUT.with(|o| o.borrow_mut().push(s));
    }
    pub fn out(name: &str, v: Fq) {
        // a field element whose in-memory form is not canonical compares unequal to itself re-read
        let canon = Fq::from_le_bytes_mod_order(&v.to_bytes_le()) == v;
        line(format!("O {} {}{}", name, hex(&v), if canon { "" } else { " noncanonical" }));
    }
    pub fn note(k: &str, v: &str) {
        line(format!("T {} {}", k, v));
    }
    #[cfg(feature = "r1cs")]
    pub fn r1cs(cs: &ark_relations::r1cs::ConstraintSystemRef<Fq>, setup: bool) {
        let m = cs.to_matrices().expect("matrices");
        line(format!("R sizes {} {} {}", m.num_instance_variables, m.num_witness_variables, m.num_constraints));
        for (name, mat) in [("A", &m.a), ("B", &m.b), ("C", &m.c)] {
            for (i, row) in mat.iter().enumerate() {
                let r: Vec<String> = row.iter().map(|(c, j)| format!("{}@{}", j, hex(c))).collect();
                line(format!("R {} {} {}", name, i, r.join(" ")));
            }
        }
        if setup {
            return;
        }
        {
            let b = cs.borrow().unwrap();
            for (j, v) in b.instance_assignment.iter().chain(b.witness_assignment.iter()).enumerate() {
                line(format!("R z {} {}", j, hex(v)));
            }
        }
        note("satisfied", &cs.is_satisfied().expect("assigned").to_string());
        let (w, z) = INPUT.with(|i| (i.borrow().witness.clone(), i.borrow().columns.clone()));
        if !w.is_empty() || !z.is_empty() {
            for (i, v) in &w {
                cs.borrow_mut().unwrap().witness_assignment[*i] = parse_fq(v);
            }
            for (j, v) in &z {
                let mut b = cs.borrow_mut().unwrap();
                let ni = b.instance_assignment.len();
                if *j < ni {
                    b.instance_assignment[*j] = parse_fq(v);
                } else {
                    b.witness_assignment[*j - ni] = parse_fq(v);
                }
            }
            note("satisfied_override", &cs.is_satisfied().expect("assigned").to_string());
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        env::line(format!("P {} :: {}", i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default(), i.to_string().replace('\n', " ")));
    }));
    let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || {
        env::INPUT.with(|i| *i.borrow_mut() = env_common::parse(&args[1]));
        let _ = std::panic::catch_unwind(|| jobs::run(&args[2..]));
        use std::io::Write;
        let mut o = std::io::BufWriter::new(std::io::stdout().lock());
        env::OUT.with(|l| {
            for s in l.borrow().iter() {
                writeln!(o, "{}", s).unwrap();
            }
        });
        writeln!(o, "END").unwrap();
    });
    h.unwrap().join().unwrap();
}
