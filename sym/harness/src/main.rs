mod cases;
mod ir;
mod rt;
use ir::*;
use rt::rt;
use std::io::BufRead;
use std::os::fd::FromRawFd;

fn run(case: &Case, values: Option<Vec<f64>>) {
    rt().reset();
    rt().symbolic = values.is_none();
    let mut cx = Cx { values, nvars: 0, f64: false };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (case.f)(&mut cx)));
    let u = rt().unsupported.take();
    let line = match (r, u) {
        (Ok(_), Some(u)) => format!("E unsupported {}", u),
        (Ok(Ok(())), None) => "E ok".to_string(),
        (Ok(Err(m)), None) => format!("E err {}", m.replace('\n', " ")),
        (Err(p), u) => {
            if p.is::<rt::Abort>() {
                "E abort".into()
            } else if let Some(u) = u {
                format!("E unsupported {}", u)
            } else {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("E panic {}", m.replace('\n', " "))
            }
        }
    };
    let stats = format!("{} ops={}", line, rt().symops);
    rt().send(&stats);
    rt().sync();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let thorough = args.get(2).map(|s| s == "thorough").unwrap_or(false);
    let cs = cases::cases(&prop, thorough);
    if args.get(3).map(|s| s == "list").unwrap_or(false) {
        for c in &cs.v {
            println!("{}", c.name);
        }
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    // commands on fd 3, answers on fd 4: the code under test may print
    unsafe {
        rt().inp = Some(std::io::BufReader::new(std::fs::File::from_raw_fd(3)));
        rt().out = Some(std::fs::File::from_raw_fd(4));
    }
    loop {
        let mut line = String::new();
        if rt().inp.as_mut().unwrap().read_line(&mut line).unwrap() == 0 {
            return;
        }
        let f: Vec<&str> = line.split_whitespace().collect();
        match f[0] {
            "RUN" => {
                let c = cs.v.iter().find(|c| c.name == f[1]).expect("no such case");
                run(c, None);
            }
            "CONC" => {
                let c = cs.v.iter().find(|c| c.name == f[1]).expect("no such case");
                let v = f[2..].iter().map(|s| s.parse::<f64>().unwrap()).collect();
                run(c, Some(v));
            }
            _ => return,
        }
    }
}
