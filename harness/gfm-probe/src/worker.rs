//! Runs documents through the real renderer with panics caught, a watchdog
//! for hangs, and the current document on disk so that the parent knows which
//! one killed the process (stack overflow, abort).
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

use crate::html;
use serde_json::{json, Value};

pub const DOC_TIMEOUT: Duration = Duration::from_secs(20);

pub struct Guard {
	progress: File,
	started:  Arc<AtomicU64>,
	epoch:    Instant,
}

impl Guard {
	pub fn new(progress: &str) -> Guard {
		std::panic::set_hook(Box::new(|_| {}));
		let started = Arc::new(AtomicU64::new(0));
		let epoch = Instant::now();
		let s = started.clone();
		std::thread::spawn(move || loop {
			std::thread::sleep(Duration::from_millis(200));
			let t = s.load(Ordering::Relaxed);
			if t != 0 && epoch.elapsed().as_millis() as u64 > t + DOC_TIMEOUT.as_millis() as u64 {
				// the parent reads the progress file
				std::process::exit(77);
			}
		});
		Guard { progress: File::create(progress).expect("progress file"), started, epoch }
	}

	pub fn mark(&self, index: u64, doc: &str) {
		let mut b = Vec::with_capacity(doc.len() + 16);
		b.extend_from_slice(&index.to_le_bytes());
		b.extend_from_slice(&(doc.len() as u64).to_le_bytes());
		b.extend_from_slice(doc.as_bytes());
		let _ = self.progress.write_all_at(&b, 0);
	}

	/// Renders one document; Err carries the panic message.
	pub fn render(&self, doc: &str) -> Result<String, String> {
		self.started.store((self.epoch.elapsed().as_millis() as u64).max(1), Ordering::Relaxed);
		let r = std::panic::catch_unwind(|| gfm::Parser::render(doc));
		self.started.store(0, Ordering::Relaxed);
		r.map_err(|e| {
			e.downcast_ref::<String>()
				.cloned()
				.or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
				.unwrap_or_else(|| "panic".into())
		})
	}
}

/// `replay IN OUT PROGRESS SKIP`: IN has one JSON object per line with `src`
/// and optionally `exp` (the events the specification expects). OUT gets one
/// object per document that panicked or differs, or every document without
/// `exp`; the last line is {"done": n}.
pub fn replay(args: &[String]) -> i32 {
	let skip: u64 = args[3].parse().unwrap();
	let inp = BufReader::new(File::open(&args[0]).expect("input"));
	let mut out = BufWriter::new(File::create(&args[1]).expect("output"));
	let guard = Guard::new(&args[2]);
	let mut n = 0u64;
	for (i, line) in inp.lines().enumerate() {
		let i = i as u64;
		if i < skip {
			continue;
		}
		let v: Value = serde_json::from_str(&line.expect("line")).expect("json");
		let src = v["src"].as_str().expect("src");
		guard.mark(i, src);
		let r = guard.render(src);
		n += 1;
		let rec = match r {
			Err(p) => Some(json!({"i": i, "panic": p})),
			Ok(h) => {
				let raw = html::strings(&html::events(&h));
				match v.get("exp").and_then(|e| e.as_array()) {
					Some(exp) => {
						let exp: Vec<String> =
							exp.iter().map(|e| e.as_str().expect("event").to_string()).collect();
						let (a, b) = (html::normalize(&raw), html::normalize(&exp));
						(a != b).then(|| json!({"i": i, "html": h, "actual": a, "expected": b}))
					}
					None => Some(json!({"i": i, "html": h, "actual": html::normalize(&raw)})),
				}
			}
		};
		if let Some(rec) = rec {
			writeln!(out, "{rec}").expect("write");
			out.flush().expect("flush");
		}
	}
	writeln!(out, "{}", json!({"done": n})).expect("write");
	out.flush().expect("flush");
	0
}
