//! Projections ("views") of a rendering onto what one property talks about.
//! They only describe; the specification (HtmlTrace.tla) judges.
use crate::html::{self, Ev};
use serde_json::{json, Value};
use std::collections::BTreeSet;

/// Markdown markers whose presence in the source can justify an element.
const MARKERS: [&str; 19] = [
	"*", "_", "~~", "`", "](", "[^", "![", "#", ">", "|", "<details>", "[ ]", "[x]", "[X]", ":", "@", "<", "-", "+",
];

pub fn facts(doc: &str) -> Vec<String> {
	let mut f: Vec<String> =
		MARKERS.iter().filter(|m| doc.contains(**m)).map(|m| m.to_string()).collect();
	if doc.contains("    ") || doc.contains('\t') {
		f.push("indent".into());
	}
	if doc.chars().any(|c| c.is_ascii_digit()) && doc.contains('.') {
		f.push("number".into());
	}
	f.sort();
	f
}

const FREE: [&str; 5] = ["href", "src", "alt", "title", "id"];

/// Every different element with its attributes.
pub fn elements(evs: &[Ev]) -> BTreeSet<(String, Vec<String>)> {
	let mut out = BTreeSet::new();
	for e in evs {
		match e {
			Ev::Text(_) => {}
			Ev::Bad(_) => {
				out.insert(("!".into(), vec![]));
			}
			Ev::Close(n) => {
				out.insert((format!("/{n}"), vec![]));
			}
			Ev::Open(n, attrs) => {
				let mut a = Vec::new();
				let mut seen = BTreeSet::new();
				for (k, v) in attrs {
					if !seen.insert(k.clone()) {
						a.push("duplicate".to_string());
					}
					a.push(if FREE.contains(&k.as_str()) {
						k.clone()
					} else if k == "class" && v.starts_with("language-") {
						"class=language".into()
					} else {
						let v: String = v.chars().filter(|c| *c != ' ' || k != "style").collect();
						format!("{k}={v}")
					});
				}
				out.insert((n.clone(), a));
			}
		}
	}
	out
}

/// The scheme of a target as a browser reads it.
pub fn scheme(target: &str) -> String {
	let t = target.trim_start_matches(|c: char| c <= ' ');
	let t: String = t.chars().filter(|c| !matches!(c, '\t' | '\n' | '\r')).collect();
	let t = t.to_ascii_lowercase();
	if t == "data:," {
		return "empty".into();
	}
	match t.split_once(':') {
		Some((s, rest))
			if s.starts_with(|c: char| c.is_ascii_alphabetic()) &&
				s.chars().all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c)) =>
		{
			match s {
				"data" if rest.starts_with("image/") => "data-image".into(),
				"data" | "javascript" => s.into(),
				_ => "other".into(),
			}
		}
		_ => "none".into(),
	}
}

pub fn targets(evs: &[Ev]) -> BTreeSet<String> {
	let mut out = BTreeSet::new();
	for e in evs {
		if let Ev::Open(n, attrs) = e {
			for (k, v) in attrs {
				if ["href", "src", "action", "formaction", "srcset", "data", "poster", "xlink:href"]
					.contains(&k.as_str())
				{
					out.insert(format!("{n}.{k} {}", scheme(v)));
				}
			}
		}
	}
	out
}

/// The nesting of elements, texts reduced to "t".
pub fn nesting(evs: &[Ev]) -> Vec<String> {
	let mut out: Vec<String> = Vec::new();
	for e in evs {
		match e {
			Ev::Open(n, _) => out.push(format!("+{n}")),
			Ev::Close(n) => out.push(format!("-{n}")),
			Ev::Bad(_) => out.push("!".into()),
			Ev::Text(t) => {
				if !t.trim().is_empty() && out.last().is_none_or(|l| l != "t") {
					out.push("t".into());
				}
			}
		}
	}
	out
}

/// Words are Z<letters>Z in the source.
fn words(s: &str) -> Vec<String> {
	s.split(|c: char| !c.is_ascii_uppercase())
		.filter(|w| w.len() > 2 && w.starts_with('Z') && w.ends_with('Z'))
		.map(|w| w.to_string())
		.collect()
}

pub fn percent_decode(s: &str) -> String {
	let b = s.as_bytes();
	let mut out = Vec::with_capacity(b.len());
	let mut i = 0;
	while i < b.len() {
		let hex = (b[i] == b'%').then(|| s.get(i + 1..i + 3)).flatten();
		match hex.and_then(|h| u8::from_str_radix(h, 16).ok()) {
			Some(c) => {
				out.push(c);
				i += 3;
			}
			None => {
				out.push(b[i]);
				i += 1;
			}
		}
	}
	String::from_utf8_lossy(&out).into_owned()
}

/// Where the words of the source are shown: for the i-th source word, how
/// often in text and whether in an attribute; the order of the words in text;
/// which words need not be shown (rest of a fence line, title of an image);
/// and whether notes move text to the end.
pub fn word_view(doc: &str, evs: &[Ev]) -> Value {
	let src = words(doc);
	let id = |w: &String| src.iter().position(|x| x == w).map_or(0, |i| i + 1);
	let mut text = String::new();
	let mut attr = BTreeSet::new();
	for e in evs {
		match e {
			Ev::Text(t) => {
				text.push(' ');
				text.push_str(t);
			}
			Ev::Open(_, a) => {
				for (_, v) in a {
					attr.extend(words(&percent_decode(v)).iter().map(id));
				}
			}
			_ => {}
		}
	}
	let mut free = Vec::new();
	for (i, w) in src.iter().enumerate() {
		let at = doc.find(w.as_str()).unwrap_or(0);
		let line = &doc[doc[..at].rfind('\n').map_or(0, |n| n + 1)..at];
		if line.contains("```") || doc[..at].contains("![") {
			free.push(i + 1);
		}
	}
	json!({
		"n": src.len(),
		"text": words(&text).iter().map(id).collect::<Vec<_>>(),
		"attr": attr.into_iter().collect::<Vec<_>>(),
		"free": free,
		"notes": doc.contains("[^") && doc.contains("]:"),
	})
}

/// All records of one view of a rendering.
pub fn view(name: &str, doc: &str, h: &str) -> Vec<Value> {
	let evs = html::events(h);
	match name {
		"markup" => {
			let f = facts(doc);
			elements(&evs).into_iter().map(|(n, a)| json!({"e": n, "a": a, "f": f})).collect()
		}
		"targets" => targets(&evs).into_iter().map(|t| json!({"t": t})).collect(),
		"nesting" => vec![json!({"ev": nesting(&evs)})],
		"words" => vec![word_view(doc, &evs)],
		_ => vec![],
	}
}
