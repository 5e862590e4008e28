#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate either;
extern crate rustc_abi;
extern crate rustc_borrowck;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_mir_dataflow;
extern crate rustc_session;
extern crate rustc_span;
extern crate smallvec;

mod alias;
mod common;
mod dbg;
mod dump;
mod inv;
mod total;

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
  let code = match cmd {
    "alias" => alias::main(&args[2..]),
    "dump" => dump::main(&args[2..]),
    "inv" => inv::main(&args[2..]),
    "total" => total::main(&args[2..]),
    "dbg" => dbg::main(&args[2..]),
    _ => {
      eprintln!("usage: fvh dump ...");
      2
    }
  };
  std::process::exit(code);
}
