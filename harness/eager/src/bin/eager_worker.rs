//! Runs the real eager-arithmetic library on queries read from stdin (one JSON object per line).
//! stdout: the library's own log lines, then one line `@@R <json>` per query.
use serde_json::{json, Value};
use std::io::{self, BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

static PANIC: Mutex<String> = Mutex::new(String::new());

fn sexp_model(m: &aws_smt_ir::model::Model<aws_smt_ir::logic::all::ALL>) -> Value {
    let d: Vec<Value> = m
        .defns()
        .map(|d| {
            json!({
                "name": d.sym.to_string(),
                "args": d.args.iter().map(|(a, s)| json!([a.to_string(), s.to_string()])).collect::<Vec<_>>(),
                "sort": d.sort.to_string(),
                "body": d.body.to_string(),
            })
        })
        .collect();
    json!({"defns": d, "text": m.to_string()})
}

/// A sink with a fault: behaves as told once `at` bytes were accepted.
struct Sink {
    data: Vec<u8>,
    at: usize,
    fault: String,
    fired: bool,
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let room = self.at.saturating_sub(self.data.len());
        match self.fault.as_str() {
            "short" => {
                let n = buf.len().min(3);
                self.data.extend(&buf[..n]);
                Ok(n)
            }
            "interrupted" if room == 0 && !self.fired => {
                self.fired = true;
                Err(io::ErrorKind::Interrupted.into())
            }
            "full" | "pipe" | "zero" if room == 0 => {
                self.fired = true;
                match self.fault.as_str() {
                    "full" => Err(io::Error::from_raw_os_error(28)),
                    "pipe" => Err(io::ErrorKind::BrokenPipe.into()),
                    _ => Ok(0),
                }
            }
            "full" | "pipe" | "zero" => {
                let n = buf.len().min(room);
                self.data.extend(&buf[..n]);
                Ok(n)
            }
            _ => {
                self.data.extend(buf);
                Ok(buf.len())
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A script whose reader fails after `left` bytes.
struct Source<'a>(&'a [u8], usize);

impl io::Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.1 == 0 {
            return Err(io::Error::from_raw_os_error(5));
        }
        let n = buf.len().min(self.1).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        self.1 -= n;
        Ok(n)
    }
}

fn run(q: &Value) -> Value {
    let smt = q["smt"].as_str().unwrap_or("").to_string();
    let mode = q["mode"].as_str().unwrap_or("solve");
    match mode {
        "solve" => match amzn_smt_eager_arithmetic::solve_with_varisat(smt.as_bytes()) {
            Ok(Some(m)) => json!({"r": "sat", "model": sexp_model(&m)}),
            Ok(None) => json!({"r": "unsat"}),
            Err(e) => json!({"r": "error", "msg": format!("{:#}", e)}),
        },
        "solver" => {
            let s = q["solver"].as_str().unwrap().to_string();
            match amzn_smt_eager_arithmetic::solve(smt.as_bytes(), s) {
                Ok(Some(m)) => json!({"r": "sat", "model": sexp_model(&m)}),
                Ok(None) => json!({"r": "unsat"}),
                Err(e) => json!({"r": "error", "msg": format!("{:#}", e)}),
            }
        }
        "encode" => {
            let mut out = Vec::new();
            match amzn_smt_eager_arithmetic::encode(smt.as_bytes(), &mut out) {
                Ok(()) => json!({"r": "ok", "cnf": String::from_utf8_lossy(&out)}),
                Err(e) => json!({"r": "error", "msg": format!("{:#}", e)}),
            }
        }
        "encode_fault" => {
            let mut sink = Sink {
                data: Vec::new(),
                at: q["at"].as_u64().unwrap() as usize,
                fault: q["fault"].as_str().unwrap().to_string(),
                fired: false,
            };
            let r = amzn_smt_eager_arithmetic::encode(smt.as_bytes(), &mut sink);
            let cnf = String::from_utf8_lossy(&sink.data).to_string();
            match r {
                Ok(()) => json!({"r": "ok", "cnf": cnf, "fired": sink.fired}),
                Err(e) => json!({"r": "error", "msg": format!("{:#}", e), "cnf": cnf, "fired": sink.fired}),
            }
        }
        "read_fault" => {
            let at = q["at"].as_u64().unwrap() as usize;
            let source = io::BufReader::with_capacity(64, Source(smt.as_bytes(), at));
            match amzn_smt_eager_arithmetic::solve_with_varisat(source) {
                Ok(Some(m)) => json!({"r": "sat", "model": sexp_model(&m)}),
                Ok(None) => json!({"r": "unsat"}),
                Err(e) => json!({"r": "error", "msg": format!("{:#}", e)}),
            }
        }
        m => json!({"r": "badmode", "msg": m}),
    }
}

fn body() {
    let stdin = io::stdin();
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        if line.trim().is_empty() {
            continue;
        }
        let q: Value = serde_json::from_str(&line).expect("driver sends JSON");
        PANIC.lock().unwrap().clear();
        let mut res = match catch_unwind(AssertUnwindSafe(|| run(&q))) {
            Ok(v) => v,
            Err(_) => json!({"r": "panic", "msg": PANIC.lock().unwrap().clone()}),
        };
        res["id"] = q["id"].clone();
        let out = io::stdout();
        let mut out = out.lock();
        writeln!(out, "\n@@R {}", res).unwrap();
        out.flush().unwrap();
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut p) = PANIC.lock() {
            *p = i.to_string();
        }
    }));
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(body)
        .unwrap()
        .join()
        .unwrap();
}
