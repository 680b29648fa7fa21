mod history;
mod html;
mod sweep;
mod views;
mod worker;

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	// rendering runs on a thread with the stack a main thread usually has
	let code = std::thread::Builder::new()
		.stack_size(8 << 20)
		.spawn(move || match args.first().map(|s| s.as_str()) {
			Some("replay") => worker::replay(&args[1..]),
			Some("sweep") => sweep::sweep(&args[1..]),
			Some("concat") => history::concat(&args[1..]),
			Some("histories") => history::histories(&args[1..]),
			Some("fresh") => history::fresh(),
			_ => {
				eprintln!("usage: gfm-probe replay|sweep|concat|histories|fresh ...");
				2
			}
		})
		.expect("thread")
		.join()
		.unwrap_or(101);
	std::process::exit(code);
}
