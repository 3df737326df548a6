//! Allocation tracking, instrumented streams, small helpers.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::{self, Read, Seek, SeekFrom, Write};

// ---------------------------------------------------------------- allocator

pub struct Counting;

thread_local! {
	static ON: Cell<bool> = const { Cell::new(false) };
	static CUR: Cell<isize> = const { Cell::new(0) };
	static PEAK: Cell<isize> = const { Cell::new(0) };
	static MAXREQ: Cell<usize> = const { Cell::new(0) };
	static COUNT: Cell<u64> = const { Cell::new(0) };
}

fn add(n: usize) {
	let _ = ON.try_with(|on| {
		if on.get() {
			CUR.with(|c| {
				c.set(c.get() + n as isize);
				PEAK.with(|p| {
					if c.get() > p.get() {
						p.set(c.get());
					}
				});
			});
			MAXREQ.with(|m| {
				if n > m.get() {
					m.set(n);
				}
			});
			COUNT.with(|m| m.set(m.get() + 1));
		}
	});
}
fn sub(n: usize) {
	let _ = ON.try_with(|on| {
		if on.get() {
			CUR.with(|c| c.set(c.get() - n as isize));
		}
	});
}

/// Requests above this are refused, so that a runaway allocation ends in an abort that the
/// supervisor pins to its case, not in the sandbox running out of memory.
const HARD_LIMIT: usize = 2 << 30;

unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		add(l.size());
		if l.size() > HARD_LIMIT {
			return std::ptr::null_mut();
		}
		unsafe { System.alloc(l) }
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		add(l.size());
		if l.size() > HARD_LIMIT {
			return std::ptr::null_mut();
		}
		unsafe { System.alloc_zeroed(l) }
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		sub(l.size());
		unsafe { System.dealloc(p, l) }
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
		if new > HARD_LIMIT {
			add(new);
			return std::ptr::null_mut();
		}
		sub(l.size());
		add(new);
		unsafe { System.realloc(p, l, new) }
	}
}

#[derive(Clone, Copy, Debug, Default)]
pub struct AllocStats {
	pub peak: usize,
	pub max_request: usize,
	pub count: u64,
}

/// Measures allocations made on this thread while `f` runs.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, AllocStats) {
	struct Off;
	impl Drop for Off {
		fn drop(&mut self) {
			ON.with(|o| o.set(false));
		}
	}
	CUR.with(|c| c.set(0));
	PEAK.with(|c| c.set(0));
	MAXREQ.with(|c| c.set(0));
	COUNT.with(|c| c.set(0));
	ON.with(|o| o.set(true));
	let off = Off;
	let r = f();
	drop(off);
	(
		r,
		AllocStats {
			peak: PEAK.with(|p| p.get()).max(0) as usize,
			max_request: MAXREQ.with(|p| p.get()),
			count: COUNT.with(|p| p.get()),
		},
	)
}

// ---------------------------------------------------------------- global options

pub fn reset_globals() {
	lofty::config::apply_global_options(lofty::config::GlobalOptions::new());
}

// ---------------------------------------------------------------- streams

/// In-memory file with an operation budget (a runaway parser panics deterministically).
pub struct Budget<'a> {
	pub inner: io::Cursor<&'a [u8]>,
	pub ops: u64,
	pub budget: u64,
}

pub const BUDGET_MSG: &str = "stream operation budget exceeded";

impl<'a> Budget<'a> {
	pub fn new(data: &'a [u8]) -> Self {
		Budget { inner: io::Cursor::new(data), ops: 0, budget: 20_000 + 200 * data.len() as u64 }
	}
	fn tick(&mut self) {
		self.ops += 1;
		if self.ops > self.budget {
			panic!("{BUDGET_MSG}");
		}
	}
}
impl Read for Budget<'_> {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		self.tick();
		self.inner.read(buf)
	}
}
impl Seek for Budget<'_> {
	fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
		self.tick();
		self.inner.seek(p)
	}
}

const MAX_FILE: u64 = 256 << 20;

/// Writable in-memory file with optional faults: fail operation number `fail_at`,
/// short reads/writes, interruptions. Also carries an operation budget.
pub struct Mem {
	pub data: Vec<u8>,
	pub pos: u64,
	pub ops: u64,
	pub budget: u64,
	pub fail_at: Option<u64>,
	pub failed: bool,
	pub sticky: bool,
	pub short: Option<crate::engine::Rng>,
	pub last_op: &'static str,
	/// which operation failed
	pub failed_op: &'static str,
}

impl Mem {
	pub fn new(data: Vec<u8>) -> Self {
		let budget = 100_000 + 400 * data.len() as u64;
		Mem {
			data,
			pos: 0,
			ops: 0,
			budget,
			fail_at: None,
			failed: false,
			sticky: false,
			short: None,
			last_op: "",
			failed_op: "",
		}
	}
	fn tick(&mut self, name: &'static str) -> io::Result<()> {
		self.ops += 1;
		self.last_op = name;
		if self.ops > self.budget {
			panic!("{BUDGET_MSG}");
		}
		if let Some(k) = self.fail_at {
			if self.ops == k || (self.sticky && self.ops > k) {
				if !self.failed {
					self.failed_op = name;
				}
				self.failed = true;
				return Err(io::Error::other("injected fault"));
			}
		}
		Ok(())
	}
	fn shorten(&mut self, n: usize) -> io::Result<usize> {
		if n == 0 {
			return Ok(0);
		}
		if let Some(r) = &mut self.short {
			let v = r.next();
			if v % 7 == 0 {
				return Err(io::Error::from(io::ErrorKind::Interrupted));
			}
			return Ok(match (v >> 8) % 4 {
				0 => 1,
				1 => 1 + ((v >> 16) as usize % n.min(9)),
				2 => 1 + ((v >> 16) as usize % n),
				_ => n,
			});
		}
		Ok(n)
	}
}

impl Read for Mem {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		self.tick("read")?;
		let avail = (self.data.len() as u64).saturating_sub(self.pos) as usize;
		let n = buf.len().min(avail);
		let n = self.shorten(n)?;
		if n == 0 {
			return Ok(0);
		}
		let p = self.pos as usize;
		buf[..n].copy_from_slice(&self.data[p..p + n]);
		self.pos += n as u64;
		Ok(n)
	}
}
impl Write for Mem {
	fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
		self.tick("write")?;
		let n = self.shorten(buf.len())?;
		if self.pos > MAX_FILE {
			return Err(io::Error::from(io::ErrorKind::FileTooLarge));
		}
		let p = self.pos as usize;
		if p + n > self.data.len() {
			self.data.resize(p + n, 0);
		}
		self.data[p..p + n].copy_from_slice(&buf[..n]);
		self.pos += n as u64;
		Ok(n)
	}
	fn flush(&mut self) -> io::Result<()> {
		Ok(())
	}
}
impl Seek for Mem {
	fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
		self.tick("seek")?;
		let np = match p {
			SeekFrom::Start(n) => n as i128,
			SeekFrom::End(n) => self.data.len() as i128 + n as i128,
			SeekFrom::Current(n) => self.pos as i128 + n as i128,
		};
		if np < 0 || np > u64::MAX as i128 {
			return Err(io::Error::from(io::ErrorKind::InvalidInput));
		}
		self.pos = np as u64;
		Ok(self.pos)
	}
}
impl lofty::io::Truncate for Mem {
	fn truncate(&mut self, new_len: u64) -> io::Result<()> {
		self.tick("truncate")?;
		if new_len > MAX_FILE {
			return Err(io::Error::from(io::ErrorKind::FileTooLarge));
		}
		self.data.resize(new_len as usize, 0);
		Ok(())
	}
}
impl lofty::io::Length for Mem {
	fn len(&self) -> io::Result<u64> {
		Ok(self.data.len() as u64)
	}
}

pub fn hex(b: &[u8]) -> String {
	let mut s = String::new();
	for (i, x) in b.iter().take(96).enumerate() {
		if i > 0 && i % 4 == 0 {
			s.push(' ');
		}
		s.push_str(&format!("{x:02x}"));
	}
	if b.len() > 96 {
		s.push_str(&format!("... ({} bytes)", b.len()));
	}
	s
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
	let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
	let s = i.saturating_sub(8);
	format!(
		"lengths {} vs {}, first difference at {}: {} vs {}",
		a.len(),
		b.len(),
		i,
		hex(&a[s.min(a.len())..(i + 16).min(a.len())]),
		hex(&b[s.min(b.len())..(i + 16).min(b.len())])
	)
}

// ---------------------------------------------------------------- scratch files

/// A file in the temporary directory, removed when dropped.
pub struct Scratch(pub std::path::PathBuf);

impl Scratch {
	pub fn new(name: &str, data: &[u8]) -> Scratch {
		static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
		let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
		let p = std::env::temp_dir().join(format!("lofty-vh-{}-{n}-{name}", std::process::id()));
		std::fs::write(&p, data).expect("scratch file");
		Scratch(p)
	}
	pub fn bytes(&self) -> Vec<u8> {
		std::fs::read(&self.0).expect("scratch file")
	}
}

impl Drop for Scratch {
	fn drop(&mut self) {
		let _ = std::fs::remove_file(&self.0);
	}
}
