use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering};
use zv::engine::{Ctx, Outcome, Tier, install_panic_hook, replay_file_with, run_property};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    install_panic_hook();
    quiet_stderr();
    let code = match args.get(1).map(String::as_str) {
        Some("check") => {
            let id = args.get(2).cloned().unwrap_or_default();
            let props = zv::props::all();
            let Some(p) = props.iter().find(|p| p.id == id) else {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            };
            let seconds = std::env::var("ZV_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 500 } else { 720 });
            watchdog(seconds + if tier == Tier::Quick { 340 } else { 160 });
            let ctx = Ctx { seed, tier, property: p.id, deadline: Some(std::time::Instant::now() + std::time::Duration::from_secs(seconds)) };
            zv::current::watch_cases(std::time::Duration::from_secs(120));
            zv::current::watch_signals();
            run_property(p, &ctx)
        }
        Some("replay") => {
            let path = std::path::PathBuf::from(args.get(2).cloned().unwrap_or_default());
            watchdog(600);
            zv::current::watch_cases(std::time::Duration::from_secs(120));
            zv::current::watch_signals();
            match replay_file_with(&path, &zv::props::all()) {
                Ok((Outcome::Ok, p)) => {
                    println!("OK property={p}");
                    0
                }
                Ok((Outcome::Violation(m), p)) => {
                    println!("{m}");
                    println!("VIOLATION property={p} replay={}", path.display());
                    1
                }
                Ok((Outcome::HarnessError(m), _)) | Err(m) => {
                    println!("ERROR {m}");
                    2
                }
            }
        }
        Some("list") => {
            for p in zv::props::all() {
                println!("{} {}", p.id, p.parts.iter().map(|p| p.name()).collect::<Vec<_>>().join(","));
            }
            0
        }
        Some("digest") => {
            println!("{:016x}", zv::props::p27::digest(args.get(2).and_then(|s| s.parse().ok()).unwrap_or(1)));
            0
        }
        _ => {
            eprintln!("usage: zv check <property> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}

/// A run that doesn't end is an error of the check, not a violation
fn watchdog(limit: u64) {
    let stop = Arc::new(AtomicBool::new(false));
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        if !stop.load(Ordering::SeqCst) {
            println!("ERROR time limit of {limit} s exceeded");
            std::process::exit(3);
        }
    });
}

/// The library prints failed assertions; keep our own messages only
fn quiet_stderr() {
    if std::env::var_os("ZV_STDERR").is_some() {
        return;
    }
    unsafe {
        let saved = libc::dup(2);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if saved >= 0 && null >= 0 {
            libc::dup2(null, 2);
            libc::close(null);
            zv::engine::set_message_fd(saved);
        }
    }
}
