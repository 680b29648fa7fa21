//! Calls of smd_core's public functions, asked for line by line (JSON on
//! stdin, one answer per line), and conversions on threads of one process.
use serde_json::{json, Value};
use smd_core::{
	config::Config,
	convert::{convert_html, PDFConverter},
	error::{Error, Result},
	fs,
};
use std::{
	io::{BufRead, Write},
	path::PathBuf,
};

/// A list of words, stored as lines; words holding a line break cannot be
/// stored, and a text that does not end with a line break is no list.
#[derive(PartialEq, Debug)]
struct Words(Vec<String>);

impl fs::Serialize for Words {
	fn serialize(&self) -> Result<String> {
		if self.0.iter().any(|w| w.contains('\n')) {
			return Err(Error::SerializeError("line break".into()));
		}
		Ok(self.0.iter().map(|w| format!("{w}\n")).collect())
	}
}

impl fs::Deserialize for Words {
	fn deserialize(input: &str) -> Result<Self> {
		if input.is_empty() {
			return Ok(Words(vec![]));
		}
		let body = input
			.strip_suffix('\n')
			.ok_or_else(|| Error::DeserializeError("no list".into()))?;
		Ok(Words(body.split('\n').map(str::to_string).collect()))
	}
}

fn kind(e: &Error) -> String {
	match e {
		Error::IoError(e) => format!("io:{:?}", e.kind()),
		Error::SerializeError(_) => "serialize".into(),
		Error::DeserializeError(_) => "deserialize".into(),
		Error::ConfigReadError(_) => "config".into(),
		Error::ConfigAlreadyExistsError(_) => "exists".into(),
		_ => "other".into(),
	}
}

fn hex(s: &str) -> Vec<u8> {
	(0..s.len() / 2)
		.map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
		.collect()
}

fn unhex(b: &[u8]) -> String {
	b.iter().map(|b| format!("{b:02x}")).collect()
}

fn answer<T>(r: Result<T>, f: impl Fn(T) -> Value) -> Value {
	match r {
		Ok(v) => json!({ "ok": f(v) }),
		Err(e) => json!({ "err": kind(&e) }),
	}
}

fn words(v: &Value) -> Words {
	Words(
		v["words"]
			.as_array()
			.unwrap()
			.iter()
			.map(|w| w.as_str().unwrap().to_string())
			.collect(),
	)
}

fn config(c: Config) -> Value {
	serde_json::to_value(&c).unwrap()
}

fn call(v: &Value) -> Value {
	let path = || PathBuf::from(v["path"].as_str().unwrap());
	let bytes = || hex(v["hex"].as_str().unwrap());
	match v["op"].as_str().unwrap() {
		"text" => answer(
			fs::write_to_file(&path(), &String::from_utf8(bytes()).unwrap()),
			|()| Value::Null,
		),
		"bytes" => answer(fs::write_bytes(&path(), &bytes()), |()| Value::Null),
		"read" => answer(fs::read_to_string(&path()), |s| {
			json!(unhex(s.as_bytes()))
		}),
		"encode" => answer(fs::encode_to_string(&words(v)), |s| {
			json!(unhex(s.as_bytes()))
		}),
		"store" => answer(
			fs::encode_to_string(&words(v))
				.and_then(|s| fs::write_to_file(&path(), &s)),
			|()| Value::Null,
		),
		"decode" => answer(fs::decode_from_file::<Words>(path()), |w| {
			json!(w.0)
		}),
		"parse" => answer(
			Config::parse_from_str(v["content"].as_str().unwrap()),
			config,
		),
		"load" => answer(Config::load_config(), config),
		"default" => config(Config::default()),
		"initialize" => answer(Config::initialize(), |()| Value::Null),
		"env" => {
			for (k, x) in v["set"].as_object().unwrap() {
				match x.as_str() {
					Some(x) => std::env::set_var(k, x),
					None => std::env::remove_var(k),
				}
			}
			Value::Null
		}
		o => panic!("unknown op {o}"),
	}
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	if args.get(1).is_some_and(|a| a == "pdf") {
		// pdf OUT FILE...: converts every file on a thread of its own
		let handles: Vec<_> = args[3..]
			.iter()
			.enumerate()
			.map(|(i, f)| {
				let html = std::fs::read_to_string(f).unwrap();
				let out = format!("{}/{}", args[2], i);
				std::thread::spawn(move || {
					match convert_html::<PDFConverter>(&html) {
						Ok(b) => std::fs::write(out + ".pdf", b).unwrap(),
						Err(e) => {
							std::fs::write(out + ".err", kind(&e)).unwrap()
						}
					}
				})
			})
			.collect();
		for h in handles {
			h.join().unwrap();
		}
		return;
	}
	let out = std::io::stdout();
	for line in std::io::stdin().lock().lines() {
		let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
		let r = call(&v);
		let mut o = out.lock();
		writeln!(o, "{r}").unwrap();
		o.flush().unwrap();
	}
}
