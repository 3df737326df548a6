//! A small property-testing engine: every case is decoded from a sequence of bounded
//! choices, so a failing case shrinks by shrinking its choice sequence and is replayed
//! from that sequence alone. A run is a pure function of (code, seed, tier).

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

// ---------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
	pub fn new(seed: u64) -> Self {
		Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
}

pub fn fnv(data: &[u8]) -> u64 {
	let mut h = 0xcbf2_9ce4_8422_2325u64;
	for &b in data {
		h ^= u64::from(b);
		h = h.wrapping_mul(0x0100_0000_01b3);
	}
	h
}

// ---------------------------------------------------------------- choice source

pub struct Src {
	rng: Option<Rng>,
	pub choices: Vec<u64>,
	pos: usize,
}

impl Src {
	pub fn random(seed: u64) -> Self {
		Src { rng: Some(Rng::new(seed)), choices: Vec::new(), pos: 0 }
	}
	pub fn replay(choices: Vec<u64>) -> Self {
		Src { rng: None, choices, pos: 0 }
	}
	/// Uniform in 0..n (0 when n <= 1). Zero is always the "simplest" choice.
	pub fn below(&mut self, n: u64) -> u64 {
		if n <= 1 {
			return 0;
		}
		if let Some(rng) = &mut self.rng {
			let v = ((u128::from(rng.next()) * u128::from(n)) >> 64) as u64;
			self.choices.push(v);
			self.pos += 1;
			v
		} else {
			let v = self.choices.get(self.pos).copied().unwrap_or(0);
			self.pos += 1;
			if v >= n { v % n } else { v }
		}
	}
	pub fn consumed(&self) -> usize {
		self.pos
	}
	pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
		lo + self.below(hi - lo + 1)
	}
	pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
		self.range(lo as u64, hi as u64) as usize
	}
	pub fn u8(&mut self) -> u8 {
		self.below(256) as u8
	}
	pub fn u32(&mut self) -> u32 {
		self.below(1 << 32) as u32
	}
	/// true with probability num/den; false is simplest
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.below(den) >= den - num
	}
	pub fn bool(&mut self) -> bool {
		self.below(2) == 1
	}
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		let i = self.below(xs.len() as u64) as usize;
		&xs[i]
	}
	/// index drawn by weights
	pub fn weighted(&mut self, ws: &[u64]) -> usize {
		let total: u64 = ws.iter().sum();
		let mut v = self.below(total);
		for (i, w) in ws.iter().enumerate() {
			if v < *w {
				return i;
			}
			v -= w;
		}
		ws.len() - 1
	}
	/// A size in 0..=max, biased to small values and to the given boundaries.
	pub fn size(&mut self, max: usize, edges: &[usize]) -> usize {
		match self.weighted(&[4, 3, 2, if edges.is_empty() { 0 } else { 4 }]) {
			0 => self.usize(0, max.min(8)),
			1 => self.usize(0, max.min(64)),
			2 => {
				let bits = self.usize(0, 64 - (max as u64).leading_zeros() as usize);
				let hi = ((1usize << bits) - 1).min(max);
				self.usize(0, hi)
			},
			_ => {
				let e = *self.pick(edges) as i64 + self.below(5) as i64 - 2;
				e.clamp(0, max as i64) as usize
			},
		}
	}
	/// Pseudo random bytes determined by two choices (length given).
	pub fn blob(&mut self, len: usize) -> Vec<u8> {
		let style = self.below(5);
		let mut r = Rng::new(self.below(1 << 32));
		(0..len)
			.map(|i| match style {
				0 => 0,
				1 => (i % 251) as u8,
				2 => [0xFF, 0x00, 0xE0, 0xFB, 0xFF, 0xFF, 0x00, 0x00][(r.next() % 8) as usize],
				_ => r.next() as u8,
			})
			.collect()
	}
}

// ---------------------------------------------------------------- case context

#[derive(Clone, Debug)]
pub struct Fail {
	pub sig: String,
	pub msg: String,
}

pub type R = Result<(), Fail>;

pub struct Case {
	pub src: Src,
	pub nontrivial: bool,
	pub classes: Vec<&'static str>,
	pub notes: Vec<String>,
	pub want_notes: bool,
}

impl Case {
	fn new(src: Src, want_notes: bool) -> Self {
		Case { src, nontrivial: false, classes: vec![], notes: vec![], want_notes }
	}
	pub fn note(&mut self, f: impl FnOnce() -> String) {
		if self.want_notes {
			let mut s = f();
			if s.len() > 1500 {
				let mut n = 1500;
				while !s.is_char_boundary(n) {
					n -= 1;
				}
				s.truncate(n);
				s.push_str("...");
			}
			self.notes.push(s);
		}
	}
	pub fn class(&mut self, c: &'static str) {
		self.classes.push(c);
	}
	pub fn nontrivial(&mut self) {
		self.nontrivial = true;
	}
}

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
	Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
	($cond:expr, $sig:expr, $($arg:tt)*) => {
		if !$cond {
			return $crate::engine::fail($sig, format!($($arg)*));
		}
	};
}

// ---------------------------------------------------------------- panic capture

thread_local! {
	static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
	static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hook() {
	let default = std::panic::take_hook();
	std::panic::set_hook(Box::new(move |info| {
		if QUIET.with(|q| q.get()) {
			let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
				(*s).to_string()
			} else if let Some(s) = info.payload().downcast_ref::<String>() {
				s.clone()
			} else {
				"?".to_string()
			};
			let loc = info
				.location()
				.map(|l| format!("{}:{}", l.file(), l.line()))
				.unwrap_or_default();
			LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
		} else {
			default(info);
		}
	}));
}

fn strip_digits(s: &str) -> String {
	let mut out = String::new();
	let mut last = false;
	for c in s.chars() {
		if c.is_ascii_digit() {
			if !last {
				out.push('#');
			}
			last = true;
		} else {
			out.push(c);
			last = false;
		}
	}
	out
}

/// Runs `f`; a panic becomes a Fail whose signature has the file and message without numbers.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
	let prev = QUIET.with(|q| q.replace(true));
	let r = catch_unwind(AssertUnwindSafe(f));
	QUIET.with(|q| q.set(prev));
	match r {
		Ok(v) => Ok(v),
		Err(_) => {
			let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
			let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or("").to_string();
			let file = file
				.rsplit_once("/src/")
				.map(|(pre, post)| format!("{}/{}", pre.rsplit('/').next().unwrap_or(""), post))
				.unwrap_or(file);
			let short: String = strip_digits(&msg).chars().take(120).collect();
			Err(Fail { sig: format!("panic {file} {short}"), msg: format!("panicked at {loc}: {msg}") })
		},
	}
}

// ---------------------------------------------------------------- suites

#[derive(Clone)]
pub struct Suite {
	pub name: &'static str,
	pub quick: u64,
	pub thorough: u64,
	pub run: fn(&mut Case) -> R,
}

pub struct Property {
	pub id: &'static str,
	pub rule: &'static str,
	pub assumptions: &'static [&'static str],
	pub suites: Vec<Suite>,
}

pub struct Outcome {
	pub fail: Option<Fail>,
	pub nontrivial: bool,
	pub classes: Vec<&'static str>,
	pub notes: Vec<String>,
	pub choices: Vec<u64>,
}

pub fn run_case(suite: &Suite, src: Src, want_notes: bool) -> Outcome {
	let mut case = Case::new(src, want_notes);
	crate::util::reset_globals();
	crate::fmt::riff::reset();
	let res = guard(|| (suite.run)(&mut case));
	let fail = match res {
		Ok(Ok(())) => None,
		Ok(Err(f)) => Some(f),
		Err(f) => Some(f),
	};
	let mut choices = std::mem::take(&mut case.src.choices);
	choices.truncate(case.src.consumed());
	Outcome { fail, nontrivial: case.nontrivial, classes: case.classes, notes: case.notes, choices }
}

fn case_seed(seed: u64, prop: &str, suite: &str, idx: u64) -> u64 {
	let mut r = Rng::new(seed ^ fnv(prop.as_bytes()).rotate_left(17) ^ fnv(suite.as_bytes()));
	let a = r.next();
	let mut r = Rng::new(a ^ idx.wrapping_mul(0xD134_2543_DE82_EF95));
	r.next()
}

/// Shrinks on a thread of its own, so that a candidate which never returns costs nothing but time.
fn shrink(suite: &Suite, start: Vec<u64>, sig: &str) -> (Vec<u64>, Option<Outcome>) {
	let best = Arc::new(Mutex::new((start.clone(), None, false)));
	let (suite, sig, b2) = (suite.clone(), sig.to_string(), best.clone());
	let spawned = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
		let (c, o) = shrink_inner(&suite, start, &sig, &b2);
		*b2.lock().unwrap() = (c, Some(o), true);
	});
	let t0 = Instant::now();
	while spawned.is_ok() && t0.elapsed().as_secs() < 100 && !best.lock().unwrap().2 {
		std::thread::sleep(std::time::Duration::from_millis(5));
	}
	let mut g = best.lock().unwrap();
	(g.0.clone(), g.1.take())
}

fn shrink_inner(
	suite: &Suite, start: Vec<u64>, sig: &str, shared: &Mutex<(Vec<u64>, Option<Outcome>, bool)>,
) -> (Vec<u64>, Outcome) {
	let budget_evals = 3000;
	let t0 = Instant::now();
	let mut best = start;
	let mut evals = 0;
	let try_it = |cand: &Vec<u64>, evals: &mut i32| -> Option<Vec<u64>> {
		if *evals >= budget_evals || t0.elapsed().as_secs() > 60 {
			return None;
		}
		*evals += 1;
		let o = run_case(suite, Src::replay(cand.clone()), false);
		match o.fail {
			Some(f) if f.sig == sig => Some(o.choices),
			_ => None,
		}
	};
	let less = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a) < (b.len(), b);
	loop {
		let before = best.clone();
		// delete spans
		for span in [64usize, 32, 16, 8, 4, 3, 2, 1] {
			let mut i = best.len();
			while i >= span {
				i -= span;
				if i + span > best.len() {
					continue;
				}
				let mut c = best.clone();
				c.drain(i..i + span);
				if let Some(n) = try_it(&c, &mut evals) {
					if less(&n, &best) {
						best = n;
					}
				}
			}
		}
		// zero and minimise values
		for i in 0..best.len() {
			if i >= best.len() || best[i] == 0 {
				continue;
			}
			let mut c = best.clone();
			c[i] = 0;
			if let Some(n) = try_it(&c, &mut evals) {
				if less(&n, &best) {
					best = n;
					continue;
				}
			}
			let (mut lo, mut hi) = (0u64, best[i]);
			while lo + 1 < hi {
				let mid = lo + (hi - lo) / 2;
				let mut c = best.clone();
				if i >= c.len() {
					break;
				}
				c[i] = mid;
				match try_it(&c, &mut evals) {
					Some(n) if less(&n, &best) => {
						best = n;
						hi = mid;
					},
					_ => lo = mid,
				}
			}
		}
		shared.lock().unwrap().0 = best.clone();
		if best == before || evals >= budget_evals || t0.elapsed().as_secs() > 60 {
			break;
		}
	}
	let o = run_case(suite, Src::replay(best.clone()), true);
	(best, o)
}

pub struct Known {
	pub property: String,
	pub signature: String,
	pub what: String,
}

fn load_known(root: &str) -> Vec<Known> {
	let mut v = vec![];
	if let Ok(s) = std::fs::read_to_string(format!("{root}/known_findings.jsonl")) {
		for line in s.lines() {
			let line = line.trim();
			if !line.starts_with('{') {
				continue;
			}
			if let Ok(j) = serde_json::from_str::<serde_json::Value>(line) {
				if j.get("status").and_then(|x| x.as_str()) == Some("fixed") {
					continue;
				}
				let g = |k: &str| j.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string();
				v.push(Known { property: g("property"), signature: g("signature"), what: g("what") });
			}
		}
	}
	v
}

struct Found {
	idx: u64,
	fail: Fail,
	choices: Vec<u64>,
}

pub struct Opts {
	pub root: String,
	pub seed: u64,
	pub thorough: bool,
	pub progress: Option<String>,
	pub scale: f64,
	pub only_suite: Option<String>,
	pub survey: bool,
}

/// Runs the property; returns process exit code.
pub fn run_property(p: &Property, o: &Opts) -> i32 {
	let t0 = Instant::now();
	let known: Vec<Known> = load_known(&o.root).into_iter().filter(|k| k.property == p.id).collect();
	let mut evaluations = 0u64;
	let mut distinct: HashSet<u64> = HashSet::new();
	let mut classes: BTreeMap<String, u64> = BTreeMap::new();
	let mut samples: Vec<serde_json::Value> = vec![];
	let mut per_suite = serde_json::Map::new();
	let mut violation: Option<(usize, Found)> = None;
	let known_hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
	let survey: Mutex<BTreeMap<String, (u64, String)>> = Mutex::new(BTreeMap::new());
	let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).min(16);
	let progress = o.progress.as_ref().map(|p| {
		std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(p).expect("progress file")
	});

	for (si, suite) in p.suites.iter().enumerate() {
		if let Some(s) = &o.only_suite {
			if s != suite.name {
				continue;
			}
		}
		let n = if o.thorough { suite.thorough } else { suite.quick };
		let n = ((n as f64) * o.scale).ceil() as u64;
		let next = AtomicU64::new(0);
		let best_fail = AtomicU64::new(u64::MAX);
		let found: Mutex<Option<Found>> = Mutex::new(None);
		let agg: Mutex<(u64, HashSet<u64>, BTreeMap<String, u64>, Vec<(u64, serde_json::Value)>)> =
			Mutex::new((0, HashSet::new(), BTreeMap::new(), vec![]));
		std::thread::scope(|sc| {
			for t in 0..threads {
				let (next, best_fail, found, agg, known, known_hits, survey) =
					(&next, &best_fail, &found, &agg, &known, &known_hits, &survey);
				let progress = progress.as_ref();
				std::thread::Builder::new()
					.stack_size(8 << 20)
					.spawn_scoped(sc, move || {
						let mut ev = 0u64;
						let mut ds = HashSet::new();
						let mut cl: BTreeMap<&'static str, u64> = BTreeMap::new();
						let mut sm = vec![];
						loop {
							let start = next.fetch_add(16, Ordering::SeqCst);
							if start >= n || start > best_fail.load(Ordering::SeqCst) {
								break;
							}
							for idx in start..(start + 16).min(n) {
								if let Some(f) = progress {
									use std::os::unix::fs::FileExt;
									let mut b = [0u8; 24];
									b[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
									b[8..16].copy_from_slice(&idx.to_le_bytes());
									b[16..].copy_from_slice(&1u64.to_le_bytes());
									let _ = f.write_at(&b, t as u64 * 24);
								}
								let cs = case_seed(o.seed, p.id, suite.name, idx);
								let want = idx < 4;
								let out = run_case(suite, Src::random(cs), want);
								ev += 1;
								if out.nontrivial {
									let mut h = 0xcbf2u64;
									for c in &out.choices {
										h = (h ^ c).wrapping_mul(0x0100_0000_01b3).rotate_left(5);
									}
									ds.insert(h ^ fnv(suite.name.as_bytes()));
								}
								for c in &out.classes {
									*cl.entry(c).or_default() += 1;
								}
								if want && sm.len() < 2 && !out.notes.is_empty() {
									sm.push((idx, serde_json::json!({"suite": suite.name, "case": idx, "nontrivial": out.nontrivial, "input": out.notes})));
								}
								if let Some(f) = out.fail {
									if known.iter().any(|k| k.signature == f.sig) {
										*known_hits.lock().unwrap().entry(f.sig).or_default() += 1;
									} else if o.survey {
										let mut g = survey.lock().unwrap();
										let e = g
											.entry(format!("{}: {}", suite.name, f.sig))
											.or_insert((0, format!("{} (case {idx})", f.msg)));
										e.0 += 1;
									} else {
										best_fail.fetch_min(idx, Ordering::SeqCst);
										let mut g = found.lock().unwrap();
										if g.as_ref().is_none_or(|x| x.idx > idx) {
											*g = Some(Found { idx, fail: f, choices: out.choices });
										}
									}
								}
							}
						}
						let mut a = agg.lock().unwrap();
						a.0 += ev;
						a.1.extend(ds);
						for (k, v) in cl {
							*a.2.entry(format!("{}/{}", suite.name, k)).or_default() += v;
						}
						a.3.extend(sm);
						if let Some(f) = progress {
							use std::os::unix::fs::FileExt;
							let _ = f.write_at(&[0u8; 24], t as u64 * 24);
						}
					})
					.expect("spawn");
			}
		});
		let (ev, ds, cl, mut sm) = agg.into_inner().unwrap();
		evaluations += ev;
		per_suite.insert(
			suite.name.into(),
			serde_json::json!({"evaluations": ev, "distinct_nontrivial": ds.len()}),
		);
		distinct.extend(ds);
		for (k, v) in cl {
			*classes.entry(k).or_default() += v;
		}
		sm.sort_by_key(|x| x.0);
		samples.extend(sm.into_iter().take(2).map(|x| x.1));
		if let Some(f) = found.into_inner().unwrap() {
			violation = Some((si, f));
			break;
		}
	}
	if o.survey {
		let g = survey.into_inner().unwrap();
		for (k, (n, m)) in &g {
			let m: String = m.chars().take(600).collect();
			println!("SURVEY {n:6}  {k}\n          {m}");
		}
		println!("{} evaluations={} distinct_nontrivial={} wall={:.1}s", p.id, evaluations, distinct.len(), t0.elapsed().as_secs_f64());
		for (k, v) in &classes {
			println!("   {k}: {v}");
		}
		return 0;
	}
	let mut code = 0;
	for k in &known {
		let n = known_hits.lock().unwrap().get(&k.signature).copied().unwrap_or(0);
		println!("KNOWN-FINDING: property={} {} (met {n} times in this run)", p.id, k.what);
	}
	let mut viol = 0;
	if let Some((si, f)) = violation {
		let suite = &p.suites[si];
		eprintln!("[{}] case {} of suite {} failed: {} -- {}", p.id, f.idx, suite.name, f.fail.sig, f.fail.msg);
		let (choices, out) = shrink(suite, f.choices, &f.fail.sig);
		let final_fail = out.as_ref().and_then(|o| o.fail.clone()).unwrap_or(f.fail);
		let notes = out.map(|o| o.notes).unwrap_or_default();
		let path = write_replay(&o.root, p.id, suite.name, o.seed, f.idx, Some(&choices), &final_fail, &notes);
		println!("{}: {}", final_fail.sig, final_fail.msg);
		for n in &notes {
			println!("  input: {n}");
		}
		println!("VIOLATION property={} replay={}", p.id, path);
		viol = 1;
		code = 1;
	}
	let ev = serde_json::json!({
		"property": p.id,
		"tier": if o.thorough { "thorough" } else { "quick" },
		"seed": o.seed as i64,
		"level": "exploration",
		"coverage": {
			"evaluations": evaluations,
			"distinct_nontrivial": distinct.len(),
			"rule": p.rule,
			"samples": samples,
			"suites": per_suite,
			"classes": classes,
		},
		"assumptions": p.assumptions,
		"wall_s": (t0.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
		"violations": viol,
	});
	let _ = std::fs::create_dir_all(format!("{}/evidence", o.root));
	std::fs::write(
		format!("{}/evidence/{}.json", o.root, p.id),
		serde_json::to_string_pretty(&ev).unwrap() + "\n",
	)
	.expect("write evidence");
	if code == 0 {
		println!(
			"{} held: {} cases, {} distinct non-trivial, {:.1}s",
			p.id,
			evaluations,
			distinct.len(),
			t0.elapsed().as_secs_f64()
		);
	}
	let _ = std::io::stdout().flush();
	code
}

#[allow(clippy::too_many_arguments)]
pub fn write_replay(
	root: &str, id: &str, suite: &str, seed: u64, idx: u64, choices: Option<&Vec<u64>>, f: &Fail, notes: &[String],
) -> String {
	let dir = format!("{root}/replays");
	let _ = std::fs::create_dir_all(&dir);
	let path = format!("{dir}/{id}-{suite}-{seed}-{idx}.json");
	let j = serde_json::json!({
		"property": id, "suite": suite, "seed": seed, "case": idx, "choices": choices,
		"signature": f.sig, "message": f.msg, "input": notes,
		"how": format!("cd /verif && ./run.sh {id} --replay {path}"),
	});
	std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap() + "\n").expect("write replay");
	path
}

pub fn one_case(p: &Property, suite: &str, seed: u64, idx: u64) -> Option<Fail> {
	let s = p.suites.iter().find(|s| s.name == suite)?;
	let o = run_case(s, Src::random(case_seed(seed, p.id, suite, idx)), true);
	for n in &o.notes {
		println!("  input: {n}");
	}
	o.fail
}

pub fn replay(p: &Property, path: &str) -> i32 {
	let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
	let suite_name = j["suite"].as_str().unwrap_or("");
	let Some(suite) = p.suites.iter().find(|s| s.name == suite_name) else {
		eprintln!("no suite {suite_name}");
		return 2;
	};
	let src = match j["choices"].as_array() {
		Some(a) => Src::replay(a.iter().map(|x| x.as_u64().unwrap()).collect()),
		None => Src::random(case_seed(
			j["seed"].as_u64().unwrap(),
			p.id,
			suite_name,
			j["case"].as_u64().unwrap(),
		)),
	};
	let o = run_case(suite, src, true);
	for n in &o.notes {
		println!("  input: {n}");
	}
	match o.fail {
		Some(f) => {
			println!("{}: {}", f.sig, f.msg);
			println!("VIOLATION property={} replay={}", p.id, path);
			1
		},
		None => {
			println!("{}: replay holds", p.id);
			0
		},
	}
}
