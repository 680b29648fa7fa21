//! Commands for relations between several renderings.
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::{Arc, Barrier};

use serde_json::{json, Value};

use crate::html;
use crate::worker::Guard;

/// `concat IN OUT PROGRESS SKIP`: each document is a list of parts; OUT gets
/// those whose joined rendering differs from the joined renderings.
pub fn concat(args: &[String]) -> i32 {
	let skip: u64 = args[3].parse().unwrap();
	let inp = BufReader::new(File::open(&args[0]).expect("input"));
	let mut out = BufWriter::new(File::create(&args[1]).expect("output"));
	let guard = Guard::new(&args[2]);
	let mut n = 0u64;
	for (i, line) in inp.lines().enumerate() {
		let i = i as u64;
		if i < skip {
			continue;
		}
		let v: Value = serde_json::from_str(&line.expect("line")).expect("json");
		let parts: Vec<&str> = v["parts"].as_array().unwrap().iter().map(|p| p.as_str().unwrap()).collect();
		let joined = parts.join(v["sep"].as_str().unwrap_or("\n\n"));
		guard.mark(i, &joined);
		n += 1;
		let run = || -> Result<(String, Vec<String>, Vec<String>), String> {
			let h = guard.render(&joined)?;
			let mut exp = Vec::new();
			for p in &parts {
				exp.extend(html::strings(&html::events(&guard.render(p)?)));
			}
			let a = html::normalize(&html::strings(&html::events(&h)));
			Ok((h, a, html::normalize(&exp)))
		};
		let rec = match run() {
			Err(p) => Some(json!({"i": i, "panic": p})),
			Ok((h, a, b)) => (a != b).then(|| json!({"i": i, "html": h, "actual": a, "expected": b})),
		};
		if let Some(rec) = rec {
			writeln!(out, "{rec}").expect("write");
			out.flush().expect("flush");
		}
	}
	writeln!(out, "{}", json!({"done": n})).expect("write");
	out.flush().expect("flush");
	0
}

/// `fresh`: renders the document on stdin; nothing else happens in this process.
pub fn fresh() -> i32 {
	let mut doc = String::new();
	std::io::Read::read_to_string(&mut std::io::stdin(), &mut doc).expect("stdin");
	print!("{}", gfm::Parser::render(&doc));
	0
}

struct Nowhere;
impl log::Log for Nowhere {
	fn enabled(&self, _: &log::Metadata) -> bool {
		true
	}
	fn log(&self, r: &log::Record) {
		std::hint::black_box(r.args().to_string());
	}
	fn flush(&self) {}
}

/// `histories IN OUT`: the first line of IN has the documents and their
/// reference renderings; every other line a history, a list of steps, each
/// step a list of [thread, document] rendered at the same time, or a log
/// level. OUT gets the rendering calls that did not return the reference.
pub fn histories(args: &[String]) -> i32 {
	static LOGGER: Nowhere = Nowhere;
	let _ = log::set_logger(&LOGGER);
	let mut lines = BufReader::new(File::open(&args[0]).expect("input")).lines();
	let head: Value = serde_json::from_str(&lines.next().unwrap().unwrap()).expect("json");
	let list = |k: &str| -> Vec<String> {
		head[k].as_array().unwrap().iter().map(|d| d.as_str().unwrap().to_string()).collect()
	};
	let docs = Arc::new(list("docs"));
	let refs = Arc::new(list("refs"));
	let mut out = BufWriter::new(File::create(&args[1]).expect("output"));
	// persistent threads, so that per-thread state would be seen
	let nthreads = head["threads"].as_u64().unwrap() as usize;
	let mut tx = Vec::new();
	let (rtx, rrx) = std::sync::mpsc::channel::<(usize, usize, bool, String)>();
	for t in 0..nthreads {
		let (s, r) = std::sync::mpsc::channel::<(usize, Arc<Barrier>)>();
		tx.push(s);
		let (docs, refs, rtx) = (docs.clone(), refs.clone(), rtx.clone());
		std::thread::Builder::new()
			.stack_size(16 << 20)
			.spawn(move || {
				for (d, b) in r {
					b.wait();
					let h = std::panic::catch_unwind(|| gfm::Parser::render(&docs[d]))
						.unwrap_or_else(|_| "PANIC".into());
					let same = h == refs[d];
					rtx.send((t, d, same, if same { String::new() } else { h })).unwrap();
				}
			})
			.expect("thread");
	}
	let mut calls = 0u64;
	for (i, line) in lines.enumerate() {
		let v: Value = serde_json::from_str(&line.expect("line")).expect("json");
		for (j, step) in v.as_array().unwrap().iter().enumerate() {
			if let Some(level) = step.as_str() {
				log::set_max_level(level.parse().unwrap());
				continue;
			}
			let step = step.as_array().unwrap();
			let b = Arc::new(Barrier::new(step.len()));
			for c in step {
				tx[c[0].as_u64().unwrap() as usize]
					.send((c[1].as_u64().unwrap() as usize, b.clone()))
					.unwrap();
			}
			for _ in step {
				let (t, d, same, h) = rrx.recv().unwrap();
				calls += 1;
				if !same {
					writeln!(out, "{}", json!({"history": i, "step": j, "thread": t, "doc": d, "html": h}))
						.expect("write");
				}
			}
		}
	}
	writeln!(out, "{}", json!({"done": calls})).expect("write");
	out.flush().expect("flush");
	0
}
