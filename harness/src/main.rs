//! vh <PROPERTY> [--replay FILE] [--survey] [--suite NAME] [--scale F] [--thorough]
//!
//! The process started by run.sh is a supervisor: it starts a worker (the same program) and
//! tells a crash of the library (stack overflow, abort) from a failure of the machinery.

#![allow(dead_code, clippy::too_many_arguments)]

mod engine;
mod fmt;
mod genres;
mod inputs;
mod lg;
mod names;
mod props;
mod rd;
mod util;

#[global_allocator]
static ALLOC: util::Counting = util::Counting;

use std::process::{Command, exit};
use std::time::{Duration, Instant};

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let has = |f: &str| args.iter().any(|a| a == f);
	let val = |f: &str| args.iter().position(|a| a == f).and_then(|i| args.get(i + 1)).cloned();
	let Some(id) = args.first().cloned() else {
		for p in props::all() {
			println!("{}", p.id);
		}
		return;
	};
	let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
		eprintln!("unknown property {id}");
		exit(2);
	};
	let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
	let thorough = has("--thorough") || std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
	let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());

	if has("--worker") {
		engine::install_hook();
		let o = engine::Opts {
			root,
			seed,
			thorough,
			progress: val("--progress"),
			scale: val("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0),
			only_suite: val("--suite"),
			survey: has("--survey"),
		};
		if let Some(r) = val("--replay") {
			exit(engine::replay(&p, &r));
		}
		if let Some(c) = val("--one") {
			let suite = val("--suite").unwrap();
			let f = std::thread::Builder::new()
				.stack_size(8 << 20)
				.spawn(move || engine::one_case(&p, &suite, seed, c.parse().unwrap()))
				.unwrap()
				.join();
			match f {
				Ok(Some(f)) => {
					println!("{}: {}", f.sig, f.msg);
					exit(1);
				},
				Ok(None) => exit(0),
				Err(_) => exit(2),
			}
		}
		exit(engine::run_property(&p, &o));
	}

	// ------------------------------------------------ supervisor
	let exe = std::env::current_exe().expect("own path");
	let progress = std::env::temp_dir().join(format!("vh-progress-{}-{}", id, std::process::id()));
	let _ = std::fs::write(&progress, []);
	let mut cmd = Command::new(&exe);
	cmd.args(&args).arg("--worker").arg("--progress").arg(&progress);
	let limit = Duration::from_secs(if has("--replay") { 90 } else if thorough { 6 * 3600 } else { 840 });
	let st = wait(&mut cmd, limit, Some(&progress));
	let data = std::fs::read(&progress).unwrap_or_default();
	let _ = std::fs::remove_file(&progress);
	let one = |suite: &str, case: u64| {
		let mut cmd = Command::new(&exe);
		cmd.args([&id, "--worker", "--suite", suite, "--one", &case.to_string()]);
		wait(&mut cmd, Duration::from_secs(60), None)
	};
	let report = |suite: &str, case: u64, f: engine::Fail| -> ! {
		let path = engine::write_replay(&root, &id, suite, seed, case, None, &f, &[]);
		println!("{}: {}", f.sig, f.msg);
		println!("VIOLATION property={id} replay={path}");
		exit(1);
	};
	match st {
		Ended::Code(c) => exit(c),
		Ended::Signal(sig) if sig == 6 || sig == 11 || sig == 4 || sig == 7 || sig == 8 => {
			eprintln!("worker ended by signal {sig}; re-running the cases in progress");
			if let Some(r) = val("--replay") {
				println!("VIOLATION property={id} replay={r}");
				exit(1);
			}
			for (suite, case) in slots(&data) {
				let suite = p.suites[suite].name;
				if let Ended::Signal(s2) = one(suite, case) {
					report(suite, case, engine::Fail {
						sig: format!("process ended by signal {s2}"),
						msg: "the process is killed while running this case (stack exhausted or abort)".into(),
					});
				}
			}
			eprintln!("no single case reproduces the crash");
			exit(2);
		},
		Ended::Signal(sig) => {
			eprintln!("worker ended by signal {sig}");
			exit(2);
		},
		Ended::Stuck(suite, case) => {
			let suite = p.suites[suite].name;
			eprintln!("case {case} of suite {suite} does not finish; re-running it alone");
			if let Ended::Timeout = one(suite, case) {
				report(suite, case, engine::Fail {
					sig: "no answer".into(),
					msg: "this case alone does not finish within 60 s".into(),
				});
			}
			eprintln!("alone, the case finishes");
			exit(2);
		},
		Ended::Timeout => {
			if let Some(r) = val("--replay") {
				println!("no answer within {} s", limit.as_secs());
				println!("VIOLATION property={id} replay={r}");
				exit(1);
			}
			eprintln!("no answer within {} s", limit.as_secs());
			exit(2);
		},
	}
}

/// (suite index, case) of every thread that has one in progress
fn slots(data: &[u8]) -> Vec<(usize, u64)> {
	data.chunks_exact(24)
		.filter_map(|c| {
			let g = |i: usize| u64::from_le_bytes(c[i..i + 8].try_into().unwrap());
			(g(16) != 0 && g(0) != 0).then(|| (g(0) as usize - 1, g(8)))
		})
		.collect()
}

/// a case running for longer than this is re-run alone
const STUCK: Duration = Duration::from_secs(60);

enum Ended {
	Code(i32),
	Signal(i32),
	Stuck(usize, u64),
	Timeout,
}

fn wait(cmd: &mut Command, limit: Duration, progress: Option<&std::path::Path>) -> Ended {
	use std::os::unix::process::ExitStatusExt;
	let mut ch = cmd.spawn().expect("start worker");
	let t0 = Instant::now();
	let mut seen: std::collections::HashMap<(usize, u64), Instant> = Default::default();
	let mut tick = 0u32;
	loop {
		if let Some(s) = ch.try_wait().expect("wait") {
			return match s.code() {
				Some(c) => Ended::Code(c),
				None => Ended::Signal(s.signal().unwrap_or(0)),
			};
		}
		if t0.elapsed() > limit {
			let _ = ch.kill();
			let _ = ch.wait();
			return Ended::Timeout;
		}
		tick += 1;
		if let Some(p) = progress
			&& tick % 50 == 0
		{
			let now = slots(&std::fs::read(p).unwrap_or_default());
			seen.retain(|k, _| now.contains(k));
			for k in now {
				let since = *seen.entry(k).or_insert_with(Instant::now);
				if since.elapsed() > STUCK {
					let _ = ch.kill();
					let _ = ch.wait();
					return Ended::Stuck(k.0, k.1);
				}
			}
		}
		std::thread::sleep(Duration::from_millis(20));
	}
}
