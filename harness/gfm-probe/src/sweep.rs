//! `sweep VIEWS OUT PROGRESS SKIP docs FILE` renders the documents of FILE,
//! `sweep VIEWS OUT PROGRESS SKIP random SEED COUNT MAXLEN FRAGMENTS` random
//! sequences of the fragments in a JSON file. OUT gets the different records
//! of the chosen views, each with its number and shortest document; the last
//! line is {"done": n}.
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};

use serde_json::{json, Value};

use crate::views;
use crate::worker::Guard;

struct Rng(u64);
impl Rng {
	fn next(&mut self) -> u64 {
		self.0 ^= self.0 << 13;
		self.0 ^= self.0 >> 7;
		self.0 ^= self.0 << 17;
		self.0
	}
	fn below(&mut self, n: u64) -> u64 {
		(self.next() >> 11) % n
	}
}

/// Z<letters>Z, the i-th word of a document.
pub fn word(mut i: usize) -> String {
	let mut s = String::from("Z");
	loop {
		s.push((b'A' + (i % 25) as u8) as char);
		i /= 25;
		if i == 0 {
			break;
		}
	}
	s.push('Z');
	s
}

/// "§" in a fragment stands for the next word.
pub fn instantiate(fragment: &str, k: &mut usize, out: &mut String) {
	for c in fragment.chars() {
		if c == '§' {
			out.push_str(&word(*k));
			*k += 1;
		} else {
			out.push(c);
		}
	}
}

/// The more markers a document holds, the more elements they can justify: of
/// records that differ in the markers only, those with fewest are enough.
fn keep_weakest(found: &mut HashMap<String, (u64, String)>) {
	let mut groups: HashMap<String, Vec<(Vec<String>, String)>> = HashMap::new();
	for key in found.keys() {
		let mut v: Value = serde_json::from_str(key).expect("record");
		if v["view"] != "markup" {
			continue;
		}
		let facts = v["r"]["f"].take();
		let facts = facts.as_array().expect("facts");
		let facts = facts.iter().map(|f| f.as_str().expect("fact").to_string()).collect();
		groups.entry(v.to_string()).or_default().push((facts, key.clone()));
	}
	for (_, mut group) in groups {
		group.sort_by_key(|g| g.0.len());
		let mut kept: Vec<(Vec<String>, String)> = Vec::new();
		for (facts, key) in group {
			match kept.iter().find(|k| k.0.iter().all(|f| facts.contains(f))) {
				Some(k) => {
					let (n, _) = found.remove(&key).expect("record");
					found.get_mut(&k.1).expect("record").0 += n;
				}
				None => kept.push((facts, key)),
			}
		}
	}
}

pub fn sweep(args: &[String]) -> i32 {
	let view_names: Vec<&str> = args[0].split(',').collect();
	let skip: u64 = args[3].parse().expect("skip");
	let mut found: HashMap<String, (u64, String)> = HashMap::new();
	let guard = Guard::new(&args[2]);
	let mut n = 0u64;
	let mut index = 0u64;
	// also without the final newline
	let ends = |doc: String| {
		let cut = doc.strip_suffix('\n').map(str::to_string);
		std::iter::once(doc).chain(cut)
	};
	let mut one = |doc: String| {
		index += 1;
		if index <= skip {
			return;
		}
		guard.mark(index - 1, &doc);
		n += 1;
		let mut add = |v: Value| {
			let e = found.entry(v.to_string()).or_insert((0, doc.clone()));
			e.0 += 1;
			if doc.len() < e.1.len() {
				e.1 = doc.clone();
			}
		};
		match guard.render(&doc) {
			Err(p) => add(json!({"view": "outcome", "r": {"o": "panic", "m": p}})),
			Ok(h) => {
				for v in &view_names {
					if *v == "outcome" {
						add(json!({"view": "outcome", "r": {"o": "return", "m": ""}}));
						continue;
					}
					for r in views::view(v, &doc, &h) {
						add(json!({"view": v, "r": r}));
					}
				}
			}
		}
	};
	match args[4].as_str() {
		"docs" => {
			for line in BufReader::new(File::open(&args[5]).expect("docs")).lines() {
				let v: Value = serde_json::from_str(&line.expect("line")).expect("json");
				let mut doc = String::new();
				let mut k = 0;
				for part in v["parts"].as_array().expect("parts") {
					let f = part[0].as_str().expect("fragment");
					for _ in 0..part[1].as_u64().expect("count") {
						instantiate(f, &mut k, &mut doc);
					}
				}
				ends(doc).for_each(&mut one);
			}
		}
		_ => {
			let seed: u64 = args[5].parse().expect("seed");
			let count: u64 = args[6].parse().expect("count");
			let max: u64 = args[7].parse().expect("maxlen");
			let frags: Vec<String> =
				serde_json::from_reader(File::open(&args[8]).expect("fragments")).expect("json");
			let mut rng = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
			for _ in 0..8 {
				rng.next();
			}
			for i in 0..count {
				// every other document is made of lines
				let lines = i % 2 == 1;
				let len = 1 + rng.below(max);
				let mut doc = String::new();
				let mut k = 0;
				for _ in 0..len {
					let f = &frags[rng.below(frags.len() as u64) as usize];
					instantiate(f, &mut k, &mut doc);
					match rng.below(12) {
						0 if lines => doc.push_str("\n\n"),
						1..=4 if lines => doc.push('\n'),
						_ => {}
					}
				}
				ends(doc).for_each(&mut one);
			}
		}
	}
	keep_weakest(&mut found);
	let mut out = BufWriter::new(File::create(&args[1]).expect("output"));
	for (k, (c, d)) in &found {
		writeln!(out, "{{\"rec\":{k},\"count\":{c},\"doc\":{}}}", json!(d)).expect("write");
	}
	writeln!(out, "{}", json!({"done": n})).expect("write");
	out.flush().expect("flush");
	0
}
