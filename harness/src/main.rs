//! obsverif check <ID> | replay <ID> <file>   (see ../DESIGN.md)
mod core;
mod checks;
mod gen;
mod model;
mod server;
mod spec;

use crate::core::*;
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, ExitCode};

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

/// Everything the library prints goes to /dev/null; returns the real stdout.
fn silence() -> std::fs::File {
    use std::os::unix::io::FromRawFd;
    unsafe {
        let saved = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        if std::env::var_os("OBSVERIF_NOISY").is_none() {
            libc::dup2(null, 1);
            libc::dup2(null, 2);
        }
        std::fs::File::from_raw_fd(saved)
    }
}

fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        let mut f = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut f);
        f.rlim_cur = f.rlim_max.min(65536);
        libc::setrlimit(libc::RLIMIT_NOFILE, &f);
    }
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    let id = args.get(1).cloned().unwrap_or_default();
    let root = PathBuf::from(opt(&args, "--root").unwrap_or_else(|| "/verif".into()));
    let tier = opt(&args, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let seed: u64 = opt(&args, "--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let factor: f64 = opt(&args, "--factor").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let scratch = opt(&args, "--scratch").map(PathBuf::from);

    match cmd {
        // ---------------------------------------------------------------- parent
        "check" => {
            let scratch = Scratch(std::env::temp_dir().join(format!("obsverif-{}", std::process::id())));
            let _ = std::fs::remove_dir_all(&scratch.0);
            std::fs::create_dir_all(&scratch.0).expect("scratch directory");
            let me = std::env::current_exe().expect("own path");
            let o = Opts { root: root.clone(), scratch: scratch.0.clone(), tier: tier.clone(), seed, factor };
            let st = Command::new(&me)
                .args(["worker", &id, "--tier", &tier, "--seed", &seed.to_string(), "--factor", &factor.to_string()])
                .arg("--root").arg(&root).arg("--scratch").arg(&scratch.0)
                .status()
                .expect("start worker");
            if let Some(c) = st.code() {
                if c > 2 && c != 77 {
                    eprintln!("{id}: worker ended with {st}");
                    return ExitCode::from(2);
                }
                if c != 77 {
                    return ExitCode::from(c as u8);
                }
            }
            use std::os::unix::process::ExitStatusExt;
            if st.signal() == Some(libc::SIGKILL) {
                eprintln!("{id}: worker was killed");
                return ExitCode::from(2);
            }
            // the worker died (stack overflow, abort) or is stuck in a case: find the case
            let stuck = st.code() == Some(77);
            let names: Vec<String> = if stuck { vec!["stuck".into()] } else { (0..=SHARDS).map(|k| format!("cur-{k}")).collect() };
            for n in names {
                let Ok(js) = std::fs::read_to_string(scratch.0.join(&n)) else { continue };
                let f = save_replay(&o, &id, &js, if stuck { "endless loop" } else { "process crash" }, &[]);
                let dies = || {
                    let mut ch = match Command::new(&me).args(["replay", &id]).arg(&f).args(["--times", "3"])
                        .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn() {
                        Ok(c) => c,
                        Err(_) => return false,
                    };
                    let t = std::time::Instant::now();
                    loop {
                        match ch.try_wait() {
                            Ok(Some(st)) => return st.code() == Some(1) || matches!(st.signal(), Some(s) if s != libc::SIGKILL),
                            Ok(None) if t.elapsed() > STUCK => {
                                let _ = ch.kill();
                                let _ = ch.wait();
                                return stuck && server::machine_is_responsive();
                            }
                            _ => std::thread::sleep(std::time::Duration::from_millis(20)),
                        }
                    }
                };
                if dies() && dies() {
                    println!("{id}: {}", if stuck { "endless loop" } else { "the process crashed" });
                    println!("VIOLATION property={id} replay={}", f.display());
                    let ev = serde_json::json!({"property": id, "tier": tier, "seed": seed, "level": "exploration",
                        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run ended early: a case crashed or hung the process", "samples": [serde_json::from_str::<serde_json::Value>(&js).unwrap_or_default()]},
                        "wall_s": 0.0, "violations": 1});
                    let _ = std::fs::create_dir_all(root.join("evidence"));
                    let _ = std::fs::write(root.join("evidence").join(format!("{id}.json")), ev.to_string());
                    return ExitCode::from(1);
                }
                let _ = std::fs::remove_file(&f);
            }
            eprintln!("{id}: worker ended with {st}, not reproducible");
            ExitCode::from(2)
        }
        // ---------------------------------------------------------------- worker
        "worker" => {
            let scratch = scratch.expect("--scratch");
            let cwd = scratch.join("cwd");
            std::fs::create_dir_all(&cwd).expect("scratch");
            std::env::set_current_dir(&cwd).expect("chdir");
            let mut out = silence();
            limit_memory();
            quiet_panics();
            let o = Opts { root, scratch, tier, seed, factor };
            let r = std::panic::catch_unwind(|| checks::with_check!(id.as_str(), c => run_check(c, &o), { eprintln!("unknown check {id}"); std::process::exit(2) }))
                .unwrap_or_else(|_| Outcome::NoAnswer(format!("the harness panicked: {}", my_panic())));
            let code = match r {
                Outcome::Held => 0,
                Outcome::Violated(v) => {
                    let _ = writeln!(out, "{id}: {}\nVIOLATION property={id} replay={}", v.msg, v.file.display());
                    1
                }
                Outcome::NoAnswer(m) => {
                    let _ = writeln!(out, "{id}: no answer: {m}");
                    2
                }
            };
            let _ = out.flush();
            std::process::exit(code)
        }
        // ---------------------------------------------------------------- one case
        "once" => {
            let mut js = String::new();
            let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut js);
            std::env::set_current_dir(scratch.expect("--scratch")).expect("chdir");
            let mut out = silence();
            limit_memory();
            quiet_panics();
            let r = std::thread::Builder::new().stack_size(16 << 20)
                .spawn(move || checks::with_check!(id.as_str(), c => run_once(c, &js), (3, format!("unknown check {id}"))))
                .unwrap().join().unwrap_or_else(|_| (3, "panicked".into()));
            let _ = out.write_all(r.1.as_bytes());
            let _ = out.flush();
            std::process::exit(r.0 as i32)
        }
        // ---------------------------------------------------------------- replay
        "replay" => {
            let f = std::fs::canonicalize(args.get(2).map(PathBuf::from).unwrap_or_default()).expect("replay file");
            let times = opt(&args, "--times").and_then(|s| s.parse().ok()).unwrap_or(5);
            let scratch = Scratch(std::env::temp_dir().join(format!("obsverif-replay-{}", std::process::id())));
            let _ = std::fs::remove_dir_all(&scratch.0);
            std::fs::create_dir_all(&scratch.0).expect("scratch directory");
            std::env::set_current_dir(&scratch.0).expect("chdir");
            let mut out = silence();
            limit_memory();
            quiet_panics();
            let r = {
                // same stack as a shard
                let id = id.clone();
                let f = f.clone();
                std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                    checks::with_check!(id.as_str(), c => run_replay(c, &f, times), Err(format!("unknown check {id}")))
                }).unwrap().join().unwrap_or_else(|_| Err("replay thread panicked".into()))
            };
            let code = match r {
                Ok(None) => { let _ = writeln!(out, "{id}: holds on {}", f.display()); 0 }
                Ok(Some(m)) => { let _ = writeln!(out, "{id}: {m}\nVIOLATION property={id} replay={}", f.display()); 1 }
                Err(e) => { let _ = writeln!(out, "{id}: {e}"); 2 }
            };
            drop(scratch);
            std::process::exit(code)
        }
        _ => {
            eprintln!("usage: obsverif check <ID> [--tier quick|thorough] [--seed N] | replay <ID> <file>");
            ExitCode::from(2)
        }
    }
}

