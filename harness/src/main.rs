//! gqlv run <id> | replay <file> | list. `call` and `inner` are for its own use.

use gqlv::json;
use gqlv::props;
use gqlv::run::{self, Case, Obs, Opts, Prop};
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

fn home() -> PathBuf {
    PathBuf::from(std::env::var("GQLV_HOME").unwrap_or_else(|_| "/verif".into()))
}

fn opts(tier: &str, trace: Option<PathBuf>) -> Opts {
    let h = home();
    Opts {
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        tier: tier.to_string(),
        corpus: h.join("corpus"),
        out: h.join("out"),
        evidence: h.join("evidence"),
        trace,
        scale: std::env::var("GQLV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
    }
}

fn find(id: &str) -> &'static Prop {
    match props::ALL.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("ERROR: no property {}", id);
            std::process::exit(2)
        }
    }
}

/// Runs this program again; what it wrote to stderr, and how it ended (None: too late).
fn again(args: &[&str], limit: Duration, quiet: bool) -> (Option<ExitStatus>, String) {
    let exe = std::env::current_exe().expect("exe");
    let mut c = Command::new(exe);
    c.args(args).stdin(Stdio::null()).stderr(Stdio::piped());
    if quiet {
        c.stdout(Stdio::null());
    }
    let mut p = c.spawn().expect("spawn");
    let mut err = p.stderr.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = err.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let t0 = Instant::now();
    let st = loop {
        match p.try_wait().expect("wait") {
            Some(s) => break Some(s),
            None if t0.elapsed() > limit => {
                let _ = p.kill();
                let _ = p.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    (st, reader.join().unwrap_or_default())
}

/// Died of its own fault, not for want of memory or at someone's hand.
fn crashed(st: Option<ExitStatus>, err: &str) -> Option<String> {
    let sig = st?.signal()?;
    if err.contains("memory allocation of") || !matches!(sig, 4 | 6 | 7 | 8 | 11) {
        return None;
    }
    if err.contains("overflowed its stack") {
        return Some("the process dies of a stack overflow".into());
    }
    Some(format!("the process dies of signal {}", sig))
}

fn write_case(path: &Path, id: &str, c: &Case) {
    let mut kv = vec![("property", id.to_string())];
    kv.extend(c.0.iter().cloned());
    std::fs::write(path, json::object(&kv)).expect("write case");
}

/// The run ended in a crash: find the case it was at.
fn hunt(id: &str, tier: &str) -> i32 {
    let p = find(id);
    let dir = std::env::temp_dir().join(format!("gqlv-trace-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("trace dir");
    let _ = again(&["inner", id, tier, dir.to_str().unwrap()], Duration::from_secs(400), true);
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    let one = dir.join("one");
    let dies = |c: &Case| -> Option<String> {
        write_case(&one, id, c);
        let (st, err) = again(&["replay", one.to_str().unwrap()], Duration::from_secs(30), true);
        crashed(st, &err)
    };
    let mut code = 3;
    for f in files {
        let c = match std::fs::read_to_string(&f).map_err(|e| e.to_string()).and_then(|s| Case::load(&s)) {
            Ok(c) => c,
            Err(_) => continue,
        };
        if let Some(why) = dies(&c) {
            // smaller, as long as it still dies
            let mut c = c;
            let t0 = Instant::now();
            for field in p.cut {
                let Some(i) = c.0.iter().position(|x| x.0 == *field) else { continue };
                let mut size = c.0[i].1.chars().count() / 2;
                while size > 0 && t0.elapsed() < Duration::from_secs(30) {
                    let mut at = 0;
                    loop {
                        let cs: Vec<char> = c.0[i].1.chars().collect();
                        if at >= cs.len() || t0.elapsed() > Duration::from_secs(30) {
                            break;
                        }
                        let mut d = c.clone();
                        d.0[i].1 = cs[..at].iter().chain(&cs[(at + size).min(cs.len())..]).collect();
                        if dies(&d).is_some() {
                            c = d
                        } else {
                            at += size
                        }
                    }
                    size /= 2;
                }
            }
            run::report(&opts(tier, None), p, &run::Failure { case: c, why });
            code = 1;
            break;
        }
    }
    if code == 3 {
        eprintln!("ERROR: {}: the run crashed, but no single case does", id);
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn supervise(id: &str, tier: &str) -> i32 {
    let _ = find(id);
    let limit = if tier == "thorough" { 6 * 3600 } else { 700 };
    let (st, err) = again(&["inner", id, tier], Duration::from_secs(limit), false);
    eprint!("{}", err);
    match st {
        None => {
            eprintln!("ERROR: {}: no end within {} s", id, limit);
            3
        }
        Some(s) => match s.code() {
            Some(c) => c,
            None if crashed(st, &err).is_some() => hunt(id, tier),
            None => {
                eprintln!("ERROR: {}: {}", id, s);
                3
            }
        },
    }
}

fn replay(path: &str) -> i32 {
    run::install_hook();
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("ERROR: {}: {}", path, e);
            return 2;
        }
    };
    let mut c = match Case::load(&s) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("ERROR: {}: {}", path, e);
            return 2;
        }
    };
    let id = c.get("property").to_string();
    c.0.retain(|x| x.0 != "property");
    let p = find(&id);
    let path = path.to_string();
    std::thread::Builder::new()
        .stack_size(p.stack)
        .spawn(move || {
            let mut o = Obs::default();
            match run::judge(p, &c, &mut o) {
                Ok(()) => {
                    for k in o.known {
                        println!("KNOWN-FINDING: property={} {}", p.id, k);
                    }
                    println!("{}: holds on {} [{}]", p.id, path, o.classes.join(", "));
                    0
                }
                Err(e) if e.starts_with("harness:") => {
                    eprintln!("ERROR: {}", e);
                    2
                }
                Err(e) => {
                    println!("{}: {}", p.id, e);
                    println!("VIOLATION property={} replay={}", p.id, path);
                    1
                }
            }
        })
        .unwrap()
        .join()
        .unwrap_or(2)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| &s[..]).collect();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    if let Ok(s) = std::fs::read_to_string(home().join("known-findings.txt")) {
        gqlv::known::load(&s);
    }
    let code = match &a[..] {
        ["run", id] => supervise(id, &tier),
        ["run", id, tier] => supervise(id, tier),
        ["inner", id, tier] => run::run(find(id), &opts(tier, None)),
        ["inner", id, tier, trace] => run::run(find(id), &opts(tier, Some(PathBuf::from(trace)))),
        ["replay", path] => replay(path),
        ["call"] => {
            run::install_hook();
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).expect("stdin");
            let r = std::thread::Builder::new()
                .stack_size(props::STACK)
                .spawn(move || props::calls::call(&s))
                .unwrap()
                .join();
            match r {
                Ok(r) => {
                    print!("{}", r);
                    0
                }
                Err(_) => 2,
            }
        }
        ["work", path, rest @ ..] => {
            let counts: Vec<usize> = rest.iter().filter_map(|n| n.parse().ok()).collect();
            let c = std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|s| Case::load(&s)).expect("case");
            let h = std::thread::Builder::new().stack_size(props::STACK).spawn(move || props::work::measure(&c, &counts)).unwrap();
            h.join().is_err() as i32 * 2
        }
        ["words"] => {
            let d = gqlv::dict::dict();
            println!("{:?}\n{:?}\n{:?}\n{:?}", d.words, d.strings, d.chars, d.nums);
            0
        }
        ["list"] => {
            for p in props::ALL {
                println!("{} quick={} thorough={}: {}", p.id, p.quick, p.thorough, p.rule);
            }
            0
        }
        _ => {
            eprintln!("gqlv run <id> [tier] | replay <file> | list");
            2
        }
    };
    std::process::exit(code)
}
