//! Projection of rendered HTML onto the events the TLA+ specification talks
//! about. The tokenizer reads tags the way a browser does (quoted, single
//! quoted and bare attribute values, any element name), so that whatever an
//! injection would create is seen as an event and judged by the specification.

#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
	/// element name (lower case), attributes in order (name lower case, value
	/// with entities decoded)
	Open(String, Vec<(String, String)>),
	Close(String),
	/// text with entities decoded
	Text(String),
	/// a comment, declaration, processing instruction, unterminated tag or a
	/// `<` that starts no tag
	Bad(String),
}

pub const VOID: [&str; 5] = ["img", "hr", "br", "input", "wbr"];

fn named(n: &str) -> Option<char> {
	Some(match n {
		"amp" | "AMP" => '&',
		"lt" | "LT" => '<',
		"gt" | "GT" => '>',
		"quot" | "QUOT" => '"',
		"apos" => '\'',
		"lbrack" | "lsqb" => '[',
		"rbrack" | "rsqb" => ']',
		"lbrace" | "lcub" => '{',
		"rbrace" | "rcub" => '}',
		"vert" | "verbar" | "VerticalLine" => '|',
		"lpar" => '(',
		"rpar" => ')',
		"bsol" => '\\',
		"num" => '#',
		"ast" | "midast" => '*',
		"lowbar" | "UnderBar" => '_',
		"grave" | "DiacriticalGrave" => '`',
		"excl" => '!',
		"sol" => '/',
		"commat" => '@',
		"colon" => ':',
		"semi" => ';',
		"period" => '.',
		"comma" => ',',
		"plus" => '+',
		"equals" => '=',
		"percnt" => '%',
		"dollar" => '$',
		"quest" => '?',
		"Hat" => '^',
		"Tab" => '\t',
		"NewLine" => '\n',
		"nbsp" | "NonBreakingSpace" => '\u{a0}',
		"tilde" => '\u{2dc}',
		_ => return None,
	})
}

pub fn decode(s: &str) -> String {
	let mut out = String::with_capacity(s.len());
	let mut rest = s;
	while let Some(i) = rest.find('&') {
		out.push_str(&rest[..i]);
		rest = &rest[i..];
		if let Some(j) = rest.char_indices().take(40).find(|c| c.1 == ';').map(|c| c.0) {
			let body = &rest[1..j];
			let c = if let Some(num) = body.strip_prefix('#') {
				let v = match num.strip_prefix(['x', 'X']) {
					Some(h) => u32::from_str_radix(h, 16).ok(),
					None => num.parse::<u32>().ok(),
				};
				v.and_then(char::from_u32)
			} else {
				named(body)
			};
			if let Some(c) = c {
				out.push(c);
				rest = &rest[j + 1..];
				continue;
			}
		}
		out.push('&');
		rest = &rest[1..];
	}
	out.push_str(rest);
	out
}

pub fn events(h: &str) -> Vec<Ev> {
	let mut out = Vec::new();
	let mut rest = h;
	let snippet = |s: &str| s.chars().take(40).collect::<String>();
	while !rest.is_empty() {
		let Some(i) = rest.find('<') else {
			out.push(Ev::Text(decode(rest)));
			break;
		};
		if i > 0 {
			out.push(Ev::Text(decode(&rest[..i])));
			rest = &rest[i..];
		}
		let b = rest.as_bytes();
		let closing = b.len() > 1 && b[1] == b'/';
		let mut p = if closing { 2 } else { 1 };
		if p >= b.len() || !b[p].is_ascii_alphabetic() {
			out.push(Ev::Bad(snippet(rest)));
			rest = &rest[1..];
			continue;
		}
		let ns = p;
		while p < b.len() && !b[p].is_ascii_whitespace() && b[p] != b'/' && b[p] != b'>' && b[p] != b'<' {
			p += 1;
		}
		let name = rest[ns..p].to_ascii_lowercase();
		let mut attrs = Vec::new();
		let mut ok = false;
		while p < b.len() {
			if b[p].is_ascii_whitespace() || b[p] == b'/' {
				p += 1;
				continue;
			}
			if b[p] == b'>' {
				p += 1;
				ok = true;
				break;
			}
			let s = p;
			p += 1;
			while p < b.len() && !b[p].is_ascii_whitespace() && !b"/>=".contains(&b[p]) {
				p += 1;
			}
			let k = rest[s..p].to_ascii_lowercase();
			while p < b.len() && b[p].is_ascii_whitespace() {
				p += 1;
			}
			let mut v = "";
			if p < b.len() && b[p] == b'=' {
				p += 1;
				while p < b.len() && b[p].is_ascii_whitespace() {
					p += 1;
				}
				if p < b.len() && (b[p] == b'"' || b[p] == b'\'') {
					let q = b[p];
					p += 1;
					let s = p;
					while p < b.len() && b[p] != q {
						p += 1;
					}
					v = &rest[s..p];
					p += 1;
				} else {
					let s = p;
					while p < b.len() && !b[p].is_ascii_whitespace() && b[p] != b'>' {
						p += 1;
					}
					v = &rest[s..p];
				}
			}
			attrs.push((k, decode(v)));
		}
		if !ok {
			out.push(Ev::Bad(snippet(rest)));
			rest = &rest[1..];
			continue;
		}
		out.push(if closing { Ev::Close(name) } else { Ev::Open(name, attrs) });
		rest = &rest[p..];
	}
	out
}

/// Percent escapes of characters that mean the same raw or escaped are
/// decoded; those of characters with a role in a URL are kept.
fn canonical_target(t: &str) -> String {
	let mut out = String::new();
	let mut rest = t;
	while let Some(i) = rest.find('%') {
		out.push_str(&rest[..i]);
		let c = rest.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok()).map(char::from);
		match c {
			Some(c) if c.is_ascii() && !c.is_ascii_alphanumeric() && !"%/?#&=:@+".contains(c) => {
				out.push(c);
				rest = &rest[i + 3..];
			}
			_ => {
				out.push('%');
				rest = &rest[i + 1..];
			}
		}
	}
	out.push_str(rest);
	out
}

/// The same for the events of the specification.
fn canonical_event(e: &str) -> String {
	if !e.starts_with('+') || !e.contains('%') {
		return e.to_string();
	}
	let parts: Vec<String> = e
		.split('|')
		.map(|p| match p.split_once('=') {
			Some((k, v)) if k == "href" || k == "src" => format!("{k}={}", canonical_target(v)),
			_ => p.to_string(),
		})
		.collect();
	parts.join("|")
}

fn alias(n: &str) -> &str {
	match n {
		"del" | "s" => "strike",
		"b" => "strong",
		"i" => "em",
		n => n,
	}
}

/// Attributes that are part of the observable meaning, in the order the
/// specification writes them.
const KEPT: [&str; 8] = ["href", "title", "src", "alt", "id", "checked", "lang", "align"];

/// The event strings the specification uses: `+name|attr=value...`, `-name`,
/// `=text`.
pub fn strings(evs: &[Ev]) -> Vec<String> {
	let mut out = Vec::new();
	for e in evs {
		match e {
			Ev::Text(t) => out.push(format!("={t}")),
			Ev::Bad(t) => out.push(format!("!{t}")),
			Ev::Close(n) if VOID.contains(&n.as_str()) => {}
			Ev::Close(n) => out.push(format!("-{}", alias(n))),
			Ev::Open(n, a) => {
				let mut kv: Vec<(String, String)> = Vec::new();
				for (k, v) in a {
					match k.as_str() {
						"class" if n == "code" => {
							if let Some(l) = v
								.split_ascii_whitespace()
								.find_map(|c| c.strip_prefix("language-"))
							{
								kv.push(("lang".into(), l.into()));
							}
						}
						"style" => {
							let v: String = v.chars().filter(|c| !c.is_whitespace()).collect();
							if let Some(al) = v.trim_end_matches(';').strip_prefix("text-align:") {
								kv.push(("align".into(), al.into()));
							}
						}
						"align" => kv.push(("align".into(), v.clone())),
						"checked" => kv.push(("checked".into(), String::new())),
						"href" | "src" => kv.push((k.clone(), canonical_target(v))),
						k if KEPT.contains(&k) => kv.push((k.into(), v.clone())),
						_ => {}
					}
				}
				kv.sort_by_key(|(k, _)| KEPT.iter().position(|x| x == k));
				let mut s = format!("+{}", alias(n));
				for (k, v) in kv {
					s.push('|');
					s.push_str(&k);
					s.push('=');
					s.push_str(&v);
				}
				out.push(s);
			}
		}
	}
	out
}

fn name_of(e: &str) -> &str {
	e[1..].split('|').next().unwrap_or("")
}

const BLOCK: [&str; 24] = [
	"p", "h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "li", "pre", "blockquote", "table",
	"thead", "tbody", "tr", "th", "td", "hr", "details", "summary", "div", "section", "br",
];

fn is_edge(e: Option<&String>) -> bool {
	e.is_none_or(|e| !e.starts_with('=') && (BLOCK.contains(&name_of(e)) || name_of(e) == "input"))
}

/// Merges adjacent texts, then collapses white space and drops it at block
/// edges; in `pre` only one final line end is dropped.
fn settle(evs: Vec<String>) -> Vec<String> {
	let mut merged: Vec<String> = Vec::new();
	for e in evs {
		match merged.last_mut() {
			Some(l) if l.starts_with('=') && e.starts_with('=') => l.push_str(&e[1..]),
			_ => merged.push(e),
		}
	}
	let mut out = Vec::new();
	let mut pre = 0;
	for i in 0..merged.len() {
		let e = &merged[i];
		if !e.starts_with('=') {
			if name_of(e) == "pre" {
				pre += if e.starts_with('+') { 1 } else { -1 };
			}
			out.push(e.clone());
			continue;
		}
		let t = &e[1..];
		let s = if pre > 0 {
			t.strip_suffix('\n').unwrap_or(t).to_string()
		} else {
			let mut s = String::new();
			for c in t.chars() {
				let c = if " \n\t\r".contains(c) { ' ' } else { c };
				if c != ' ' || !s.ends_with(' ') {
					s.push(c);
				}
			}
			let mut s = s.as_str();
			if is_edge(i.checked_sub(1).map(|j| &merged[j])) {
				s = s.trim_start_matches(' ');
			}
			if is_edge(merged.get(i + 1)) {
				s = s.trim_end_matches(' ');
			}
			s.to_string()
		};
		if !s.is_empty() {
			out.push(format!("={s}"));
		}
	}
	out
}

/// Normal form in which expected and actual events are compared: paragraphs
/// directly in list items, quotes and cells are dissolved (tight and loose
/// items are the same), adjacent quotes joined, and text settled.
pub fn normalize(evs: &[String]) -> Vec<String> {
	let mut out: Vec<String> = Vec::new();
	let mut stack: Vec<String> = Vec::new();
	for e in evs.iter().map(|e| canonical_event(e)) {
		let e = &e;
		let n = if e.starts_with('=') { "" } else { name_of(e) };
		let mut keep = true;
		if e.starts_with('+') && !VOID.contains(&n) {
			if n == "p" && stack.last().is_some_and(|h| ["li", "blockquote", "td", "th"].contains(&h.as_str())) {
				keep = false;
				stack.push("(p)".into());
			} else {
				stack.push(n.into());
			}
		} else if e.starts_with('-') {
			match stack.last() {
				Some(t) if t == "(p)" && n == "p" => {
					keep = false;
					stack.pop();
				}
				Some(t) if t == n => {
					stack.pop();
				}
				_ => {}
			}
		}
		out.push(if keep { e.clone() } else { "=\n".into() });
	}
	let mut out = settle(out);
	let mut i = 0;
	while i + 1 < out.len() {
		if out[i] == "-blockquote" && out[i + 1] == "+blockquote" {
			out.splice(i..i + 2, ["=\n".to_string()]);
			i = i.saturating_sub(1);
		} else {
			i += 1;
		}
	}
	settle(out)
}
