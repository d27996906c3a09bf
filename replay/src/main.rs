//! Runs harnesses natively (real std build, TestExternalities) on concrete inputs.
//! stdin: `RUN <harness>` / `IN <name> <value>`* / `GO`, repeated. stdout: outcome lines, then `DONE`.
use std::io::BufRead;
fn main() {
	std::panic::set_hook(Box::new(|_| {}));
	let mut name = String::new();
	let mut ins: Vec<(String, u128)> = vec![];
	for l in std::io::stdin().lock().lines() {
		let l = l.unwrap();
		if let Some(n) = l.strip_prefix("RUN ") {
			name = n.to_string();
			ins.clear();
		} else if let Some(r) = l.strip_prefix("IN ") {
			let (n, v) = r.rsplit_once(' ').unwrap();
			ins.push((n.to_string(), v.parse().unwrap()));
		} else if l == "GO" {
			let f = harness::find(&name).expect("unknown harness");
			symrt::INPUTS.with(|i| *i.borrow_mut() = std::mem::take(&mut ins));
			symrt::POS.with(|i| *i.borrow_mut() = 0);
			symrt::OUT.with(|i| i.borrow_mut().clear());
			let mut ext = sp_io::TestExternalities::new_empty();
			let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ext.execute_with(f)));
			symrt::OUT.with(|o| o.borrow().iter().for_each(|l| println!("{l}")));
			match r {
				Ok(()) => {},
				Err(e) if e.is::<symrt::Leave>() => {},
				Err(e) => {
					let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
					println!("PANIC {}", m.unwrap_or_default().replace('\n', " "));
				},
			}
			println!("DONE");
		}
	}
}
