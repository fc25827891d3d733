mod alloc;
mod coding;
mod ctl;
mod engine;
mod leafs;
mod meta;
mod model;
mod real;
mod refs;
mod rng;
mod serdes;
mod values;

use std::time::{Duration, Instant};

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[global_allocator]
static A: alloc::Track = alloc::Track;

fn main() {
    let mut a = std::env::args().skip(1);
    let prop = a.next().expect("usage: falsifier PROPERTY [--seed N] [--secs S] [--case N] [--inflight FILE] [--thorough]");
    if prop == "deep-probe" {
        return values::deep_probe(a.next().unwrap().parse().unwrap());
    }
    let mut shard = (0u64, 1u64);
    let (mut seed, mut secs, mut only, mut inflight, mut thorough) = (1u64, 20f64, None, None, false);
    while let Some(k) = a.next() {
        match k.as_str() {
            "--seed" => seed = a.next().unwrap().parse().unwrap(),
            "--secs" => secs = a.next().unwrap().parse().unwrap(),
            "--case" => only = Some(a.next().unwrap().parse().unwrap()),
            "--inflight" => inflight = Some(std::fs::File::create(a.next().unwrap()).unwrap()),
            "--shard" => {
                let t = a.next().unwrap();
                let (x, y) = t.split_once('/').unwrap();
                shard = (x.parse().unwrap(), y.parse().unwrap());
            }
            "--thorough" => thorough = true,
            k => panic!("unknown argument {}", k),
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let th = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        let mut c = ctl::Ctl {
            prop: prop.clone(),
            seed,
            deadline: t0 + Duration::from_secs_f64(secs),
            only,
            evals: 0,
            seen: Default::default(),
            samples: vec![],
            inflight,
            thorough,
            shard,
        };
        let r = match prop.as_str() {
            "C04" | "C05" | "C06" | "C07" | "C09" | "C10" | "C17" => coding::campaign(&mut c),
            "C01" => leafs::c01(&mut c),
            "C02" => leafs::c02(&mut c),
            "C03" => leafs::c03(&mut c),
            "C08" => values::c08(&mut c),
            "C11" => values::c11(&mut c),
            "C12" => serdes::c12(&mut c),
            "C15" => meta::c15(&mut c),
            "C16" => values::c16(&mut c),
            p => panic!("no campaign for {}", p),
        };
        let (f, case, what) = match r {
            Ok(()) => (false, 0, String::new()),
            Err(f) => (true, f.case, f.what),
        };
        println!(
            "{{\"property\":{},\"seed\":{},\"found\":{},\"case\":{},\"what\":{},\"evaluations\":{},\"distinct\":{},\"secs\":{:.2},\"samples\":[{}]}}",
            json(&prop),
            seed,
            f,
            case,
            json(&what),
            c.evals,
            c.seen.len(),
            t0.elapsed().as_secs_f64(),
            c.samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(",")
        );
        f
    });
    match th.unwrap().join() {
        Ok(false) => (),
        Ok(true) => std::process::exit(1),
        Err(e) => {
            println!("{{\"error\":{}}}", json(&real::panic_text(e)));
            std::process::exit(2)
        }
    }
}
