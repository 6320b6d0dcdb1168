#[path = "../../common/env_common.rs"]
mod env_common;
#[cfg(feature = "r1cs")]
#[path = "../../common/gadget.rs"]
mod gadget;
#[path = "../../common/jobs.rs"]
mod jobs;

/// Symbolic environment: inputs are variables of the DAG, observations are DAG nodes.
pub mod env {
    use super::env_common::*;
    use decaf377::Fq;
    use std::cell::RefCell;
    thread_local! {
        pub static INPUT: RefCell<Input> = RefCell::new(Input::default());
        pub static OUT: RefCell<Vec<String>> = RefCell::new(Vec::new());
    }
    pub fn var(name: &str) -> Fq {
        INPUT.with(|i| {
            let i = i.borrow();
            let name = i.alias.get(name).map(|s| s.as_str()).unwrap_or(name);
            let (konst, hex) = match i.vals.get(name) {
                Some((k, v)) => (*k, v.clone()),
                None => (i.rest_const, default_value(name, i.seed)),
            };
            let v = decaf377::parse_concrete(&hex);
            if konst {
                // a constant input: canonical Montgomery form of the value
                let bytes = {
                    let h = decaf377::concrete_hex(&v);
                    let mut b = [0u8; 32];
                    for k in 0..32 {
                        b[31 - k] = u8::from_str_radix(&h[2 + 2 * k..4 + 2 * k], 16).unwrap();
                    }
                    b
                };
                Fq::from_le_bytes_mod_order(&bytes)
            } else {
                Fq::sym_var(name, v)
            }
        })
    }
    pub fn line(s: String) {
        OUT.with(|o| o.borrow_mut().push(s));
    }
    pub fn out(name: &str, v: Fq) {
        line(format!("O {} {}", name, decaf377::sym::show_ref(&v)));
    }
    pub fn note(k: &str, v: &str) {
        line(format!("T {} {}", k, v));
    }
    #[cfg(feature = "r1cs")]
    pub fn r1cs(cs: &ark_relations::r1cs::ConstraintSystemRef<Fq>, setup: bool) {
        let m = cs.to_matrices().expect("matrices");
        let b = cs.borrow().unwrap();
        line(format!("R sizes {} {} {}", m.num_instance_variables, m.num_witness_variables, m.num_constraints));
        for (name, mat) in [("A", &m.a), ("B", &m.b), ("C", &m.c)] {
            for (i, row) in mat.iter().enumerate() {
                let r: Vec<String> = row.iter().map(|(c, j)| format!("{}@{}", j, decaf377::sym::show_ref(c))).collect();
                line(format!("R {} {} {}", name, i, r.join(" ")));
            }
        }
        if !setup {
            for (j, v) in b.instance_assignment.iter().chain(b.witness_assignment.iter()).enumerate() {
                line(format!("R z {} {}", j, decaf377::sym::show_ref(v)));
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = env_common::parse(&args[1]);
    for (i, o) in &input.force {
        decaf377::sym::force(*i, *o);
    }
    env::INPUT.with(|i| *i.borrow_mut() = input);
    std::panic::set_hook(Box::new(|i| {
        env::line(format!("P {} :: {}", i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default(), i.to_string().replace('\n', " ")));
    }));
    let rest = args[2..].to_vec();
    let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || {
        env::INPUT.with(|i| *i.borrow_mut() = env_common::parse(&args[1]));
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| jobs::run(&rest)));
        use std::io::Write;
        let mut o = std::io::BufWriter::new(std::io::stdout().lock());
        decaf377::sym::dump(&mut o).unwrap();
        env::OUT.with(|l| {
            for s in l.borrow().iter() {
                writeln!(o, "{}", s).unwrap();
            }
        });
        writeln!(o, "END").unwrap();
    });
    h.unwrap().join().unwrap();
}
