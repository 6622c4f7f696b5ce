//! Stands in for dot: tells the harness how it was started, waits to be told how to end.
use std::io::{BufRead, BufReader, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::net::UnixStream;

#[path = "../outs.rs"]
mod outs;
use outs::*;

fn input(path: Option<&std::ffi::OsString>) -> String {
    match path.map(std::fs::read) {
        Some(Ok(b)) => digest(&b),
        _ => "missing".to_string(),
    }
}

fn main() {
    let sock = match std::env::var_os("GVX_SOCK") {
        Some(s) => s,
        None => std::process::exit(99),
    };
    let args: Vec<std::ffi::OsString> = std::env::args_os().skip(1).collect();
    let mut up = match UnixStream::connect(sock) {
        Ok(s) => s,
        Err(_) => std::process::exit(98),
    };
    let mut down = BufReader::new(up.try_clone().unwrap());
    // pid, digest of the input, in hex the working directory and the words
    let cwd = std::env::current_dir().map(|d| d.into_os_string()).unwrap_or_default();
    let words: Vec<String> = std::iter::once(&cwd).chain(args.iter()).map(|a| format!("={}", hex(a.as_bytes()))).collect();
    let _ = writeln!(up, "{} {} {}", std::process::id(), input(args.last()), words.join(" "));
    let mut line = String::new();
    let mut next = |line: &mut String| {
        line.clear();
        match down.read_line(line) {
            Ok(k) if k > 0 => {}
            _ => std::process::exit(98),
        }
    };
    // how outkind outlen errkind errlen order
    next(&mut line);
    let f: Vec<String> = line.split_whitespace().map(|x| x.to_string()).collect();
    let _ = writeln!(up, "{}", input(args.last()));
    next(&mut line);
    let out = bytes(&f[1], f[2].parse().unwrap());
    let err = bytes(&f[3], f[4].parse().unwrap());
    let mut so = std::io::stdout();
    let mut se = std::io::stderr();
    let mut put = |w: &mut dyn Write, b: &[u8]| {
        if w.write_all(b).and_then(|_| w.flush()).is_err() {
            std::process::exit(97)
        }
    };
    match f[5].as_str() {
        "out" => {
            put(&mut so, &out);
            put(&mut se, &err)
        }
        "err" => {
            put(&mut se, &err);
            put(&mut so, &out)
        }
        _ => {
            let mut a = out.chunks(10000);
            let mut b = err.chunks(7000);
            loop {
                match (a.next(), b.next()) {
                    (None, None) => break,
                    (x, y) => {
                        put(&mut so, x.unwrap_or(&[]));
                        put(&mut se, y.unwrap_or(&[]))
                    }
                }
            }
        }
    }
    if let Some(code) = f[0].strip_prefix("exit") {
        std::process::exit(code.parse().unwrap())
    }
    // to be killed
    let _ = writeln!(up, "ready");
    next(&mut line);
    std::thread::sleep(std::time::Duration::from_secs(60));
}
