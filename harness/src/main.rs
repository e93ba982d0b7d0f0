//! Executor: reads requests (one JSON object per line), runs the real gpf code,
//! writes the request back with an `obs` field holding what was observed.
//! Nothing is judged here: the verdict is TLC's (see /verif/spec).
#![feature(allocator_api)]
#![feature(portable_simd)]
mod flow;
mod imp;
mod meshops;
mod num;
mod poly;
mod preds;
mod tetm;
mod tri;

use serde_json::{json, Value};
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn run(req: &Value) -> Value {
    match req["op"].as_str().unwrap() {
        "ds" => flow::ds(req),
        "flow" => flow::flow(req),
        "mesh" => meshops::mesh(req),
        "pred" => preds::pred(req),
        "cls" => preds::cls(req),
        "exp" => preds::exp(req),
        "iv" => preds::iv(req),
        "axis" => preds::axis(req),
        "imp" => imp::imp(req),
        "tri2" => tri::tri2(req),
        "tri3" => tri::tri3(req),
        "soup" => tri::soup(req),
        "tet" => tetm::tet(req),
        "again" => tetm::again(req),
        "dedup" => poly::dedup(req),
        "solid" => poly::solid(req),
        x => panic!("unknown op {x}"),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let inp = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = BufWriter::new(
        std::fs::OpenOptions::new()
            .create(true)
            .append(true)
            .open(&args[2])
            .unwrap(),
    );
    let skip: usize = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    if std::env::var_os("GPFH_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    for line in inp.lines().skip(skip) {
        let line = line.unwrap();
        let mut req: Value = serde_json::from_str(&line).unwrap();
        let res = catch_unwind(AssertUnwindSafe(|| run(&req)));
        let obs = match res {
            Ok(v) => v,
            Err(e) => {
                let msg = if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "?".to_string()
                };
                if msg.starts_with("HARNESS") {
                    eprintln!("{msg}: {line}");
                    std::process::exit(3);
                }
                json!({"crash": msg})
            }
        };
        req["obs"] = obs;
        serde_json::to_writer(&mut out, &req).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
