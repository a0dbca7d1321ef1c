//! Runs one harness natively on recorded input values.
//! replay ENTRY VALUES(comma separated u128) [tier=N] [real=1] [k=v ...]
//! exit 0: held, 1: violated (message on stdout), 3: inputs outside the harness' assumptions
#![allow(unused)]
mod sym;
mod all;
use all::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let entry = a[1].clone();
    let vals: Vec<u128> = a[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let (mut tier, mut real, mut params) = (0, false, vec![]);
    for s in &a[3..] {
        let (k, v) = s.split_once('=').unwrap();
        match k {
            "tier" => tier = v.parse().unwrap(),
            "real" => real = v == "1",
            k => params.push((k.parse().unwrap(), v.parse().unwrap())),
        }
    }
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<sym::raw::Stop>().is_none() {
            println!("PANIC {}", i);
        }
    }));
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        sym::raw::ST.with(|s| {
            let mut s = s.borrow_mut();
            s.vals = vals;
            s.tier = tier;
            s.real = real;
            s.params = params;
        });
        let f = ENTRIES.iter().find(|e| e.0 == entry).expect("unknown entry").1;
        let r = std::panic::catch_unwind(|| f());
        let ok = sym::raw::ST.with(|s| s.borrow().panic_ok);
        match r {
            Ok(()) => 0,
            Err(p) => match p.downcast::<sym::raw::Stop>() {
                Ok(s) => match *s {
                    sym::raw::Stop::Assume => 3,
                    sym::raw::Stop::Fail(m) => {
                        println!("FAIL {}", m);
                        1
                    }
                },
                Err(_) if ok => 0,
                Err(_) => {
                    println!("FAIL panic");
                    1
                }
            },
        }
    });
    std::process::exit(h.unwrap().join().unwrap_or(1));
}
