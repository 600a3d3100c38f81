//! A SAT solver program (varisat) with the usual DIMACS/SAT-competition interface: problem on
//! stdin, `c`/`s`/`v` lines on stdout, exit code 10 (sat) or 20 (unsat).
use std::io::{self, Read, Write};
use varisat::{ExtendFormula, Lit, Solver};

fn main() {
    let mut text = String::new();
    io::stdin().read_to_string(&mut text).unwrap();
    let mut solver = Solver::new();
    let (mut clause, mut vars) = (Vec::new(), 0);
    for line in text.lines() {
        if line.starts_with('c') || line.trim().is_empty() {
            continue;
        }
        if line.starts_with('p') {
            vars = line.split_whitespace().nth(2).unwrap().parse().unwrap();
            continue;
        }
        for l in line.split_whitespace() {
            let l: isize = l.parse().unwrap();
            if l == 0 {
                solver.add_clause(&clause);
                clause.clear();
            } else {
                clause.push(Lit::from_dimacs(l));
            }
        }
    }
    let mut out = io::stdout().lock();
    writeln!(out, "c varisat").unwrap();
    if !solver.solve().unwrap() {
        writeln!(out, "s UNSATISFIABLE").unwrap();
        out.flush().unwrap();
        std::process::exit(20);
    }
    let mut values = vec![-1isize; vars];
    for l in solver.model().unwrap() {
        let d = l.to_dimacs();
        if let Some(v) = values.get_mut(d.unsigned_abs() - 1) {
            *v = d.signum();
        }
    }
    writeln!(out, "s SATISFIABLE").unwrap();
    let lits: Vec<String> = (1isize..).zip(values).map(|(i, s)| (i * s).to_string()).collect();
    for c in lits.chunks(7) {
        writeln!(out, "v {}", c.join(" ")).unwrap();
    }
    writeln!(out, "v 0").unwrap();
    out.flush().unwrap();
    std::process::exit(10);
}
