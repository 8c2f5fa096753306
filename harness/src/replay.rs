// Runs recorded assignments against the natively compiled code.
// stdin: lines `entry \t params \t inputs`; stdout: one result line each.
use harness::sx;
use std::io::BufRead;
use std::panic;
use std::sync::Mutex;

static LOC: Mutex<String> = Mutex::new(String::new());

fn parse(s: &str) -> Vec<sx::Inp> {
    s.split(',')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let (k, v) = x.split_at(2);
            if k == "c:" {
                sx::Inp::Choice(v.parse().unwrap())
            } else {
                sx::Inp::Bytes((0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap()).collect())
            }
        })
        .collect()
}

fn main() {
    panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let p = i.payload();
        let m = p
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_default();
        *LOC.lock().unwrap() = format!("{} {}", l, m.replace('\n', " "));
    }));
    let table = harness::table();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split('\t').collect();
        if f.len() < 3 {
            continue;
        }
        let h = match table.iter().find(|t| t.0 == f[0]) {
            Some(h) => h.1,
            None => {
                println!("nosuch");
                continue;
            }
        };
        sx::reset(
            f[1].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            parse(f[2]),
        );
        let r = panic::catch_unwind(panic::AssertUnwindSafe(|| h()));
        let (hash, xp) = sx::ST.with(|s| {
            let s = s.borrow();
            (s.hash, s.expect_panic)
        });
        match r {
            Ok(()) if xp => println!("nopanic"),
            Ok(()) => println!("ok {:016x}", hash),
            Err(e) => {
                if e.downcast_ref::<sx::Stop>().is_some() {
                    if xp {
                        println!("nopanic")
                    } else {
                        println!("ok {:016x}", hash)
                    }
                } else if e.downcast_ref::<sx::Assumed>().is_some() {
                    println!("assumed")
                } else if let Some(c) = e.downcast_ref::<sx::Check>() {
                    println!("check {}", c.0)
                } else if let Some(m) = e.downcast_ref::<sx::Mismatch>() {
                    println!("mismatch {}", m.0)
                } else if xp {
                    println!("xpanic {:016x}", hash)
                } else {
                    println!("panic {}", LOC.lock().unwrap())
                }
            }
        }
    }
}
