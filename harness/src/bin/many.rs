//! Every check in one program, for the builds with sanitizers: `many c06` runs the check of C06.
#![allow(dead_code)]
#[path = "small.rs"]
mod small;
#[path = "c01.rs"]
mod c01;
#[path = "c02.rs"]
mod c02;
#[path = "c03.rs"]
mod c03;
#[path = "c04.rs"]
mod c04;
#[path = "c05.rs"]
mod c05;
#[path = "c06.rs"]
mod c06;
#[path = "c07.rs"]
mod c07;
#[path = "c08.rs"]
mod c08;
#[path = "c09.rs"]
mod c09;
#[path = "c10.rs"]
mod c10;
#[path = "c11.rs"]
mod c11;
#[path = "c12.rs"]
mod c12;
#[path = "c13.rs"]
mod c13;
#[path = "c14.rs"]
mod c14;
#[path = "c15.rs"]
mod c15;
#[path = "c16.rs"]
mod c16;
#[path = "c17.rs"]
mod c17;
#[path = "c18.rs"]
mod c18;
#[path = "c19.rs"]
mod c19;
#[path = "c20.rs"]
mod c20;
#[path = "c21.rs"]
mod c21;
#[path = "c22.rs"]
mod c22;
#[path = "c23.rs"]
mod c23;
#[path = "c24.rs"]
mod c24;
#[path = "c25.rs"]
mod c25;
#[path = "c26.rs"]
mod c26;
#[path = "c27.rs"]
mod c27;
#[path = "c28.rs"]
mod c28;
#[path = "c29.rs"]
mod c29;

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("c01") => c01::main(),
        Some("c02") => c02::main(),
        Some("c03") => c03::main(),
        Some("c04") => c04::main(),
        Some("c05") => c05::main(),
        Some("c06") => c06::main(),
        Some("c07") => c07::main(),
        Some("c08") => c08::main(),
        Some("c09") => c09::main(),
        Some("c10") => c10::main(),
        Some("c11") => c11::main(),
        Some("c12") => c12::main(),
        Some("c13") => c13::main(),
        Some("c14") => c14::main(),
        Some("c15") => c15::main(),
        Some("c16") => c16::main(),
        Some("c17") => c17::main(),
        Some("c18") => c18::main(),
        Some("c19") => c19::main(),
        Some("c20") => c20::main(),
        Some("c21") => c21::main(),
        Some("c22") => c22::main(),
        Some("c23") => c23::main(),
        Some("c24") => c24::main(),
        Some("c25") => c25::main(),
        Some("c26") => c26::main(),
        Some("c27") => c27::main(),
        Some("c28") => c28::main(),
        Some("c29") => c29::main(),
        Some("small") => small::main(),
        _ => std::process::exit(2),
    }
}
