"""Shared Rust helpers of the demonstrations."""
PRE = '''
use posidonius::*;
#[allow(dead_code)]
fn ax(x: f64, y: f64, z: f64) -> Axes { Axes{x: x, y: y, z: z} }
#[allow(dead_code)]
fn effects() -> ConsiderEffects { ConsiderEffects { tides: false, rotational_flattening: false, general_relativity: false, disk: false, wind: false, evolution: false } }
#[allow(dead_code)]
fn fail(s: &str) -> ! { eprintln!("{}", s); std::process::exit(1) }
#[allow(dead_code)]
fn close(a: f64, b: f64, tol: f64) -> bool { (a - b).abs() <= tol * b.abs().max(1e-300) }
#[allow(dead_code)]
fn writer(name: &str) -> std::io::BufWriter<std::fs::File> { std::io::BufWriter::new(std::fs::File::create(name).unwrap()) }
'''
