//! What a stand-in dot writes, as kind and length, and digests of texts.

/// What dot has to say at times.
const SAID: [&str; 16] = [
    "Error: /tmp/.tmpx: syntax error in line 1 near '{'\n",
    "Error: <stdin>: syntax error in line 2 scanning a quoted string (missing endquote? longer than 16384?)\nString starting:\"a\n",
    "Warning: node 'x', graph '%3' size too small for label\n",
    "Warning: /tmp/.tmpx: syntax error in line 1 near '--'\n",
    "Error: Layout type: \"nix\" not recognized. Use one of: circo dot fdp neato nop nop1 nop2 osage patchwork sfdp twopi\n",
    "Format: \"nix\" not recognized. Use one of: bmp canon cgimage cmap dot\n",
    "Error: dot: can't open /tmp/.tmpx: No such file or directory\n",
    "There is no layout engine support for \"nix\"\nPerhaps \"dot -c\" needs to be run (with installer's privileges) to register the plugins?\n",
    "dot: graph is too large for cairo-renderer bitmaps. Scaling by 0.5 to fit\n",
    "Error: Could not open \"/nowhere/x.svg\" for writing : No such file or directory\n",
    "Usage: dot [-Vv?] [-(GNE)name=val] [-(KTlso)<val>] <dot files>\n",
    "Warning: Could not load \"libgvplugin_gd.so.6\" - file not found\n",
    "dot - graphviz version 2.43.0 (0)\n",
    "  ",
    "Error: out of memory\n",
    "ok",
];

/// How outputs begin and end, and what stands between.
const BEGIN: [&[u8]; 16] = [
    b"", b"\xef\xbb\xbf", b"\n", b"\r\n", b" ", b"\0", b"%PDF-1.4\n", b"\x89PNG\r\n\x1a\n", b"<?xml version=\"1.0\"?>\n", b"\xff\xfe", b"\x1f\x8b\x08", b"digraph {\n",
    b"Error: x\n", b"\x1b[0m", b"\t\t", b"#!x\n",
];
const END: [&[u8]; 14] = [
    b"", b"\n", b"\n\n", b"\n\n\n", b"\r\n", b"\r\n\r\n", b" ", b"\t\n", b"\0", b"\0\0\0", b"\x1a", b"</svg>\n\n", b"\xe2\x82", b" \n ",
];
const MIDDLE: [&[u8]; 3] = [b"x", b"a\na\na\nb  b\tc\r\nd\0e\x1a\x07f\x1b[1mg\xc3\x28", b""];

pub fn bytes(kind: &str, len: usize) -> Vec<u8> {
    if kind == "shape" {
        return [BEGIN[len % 16], MIDDLE[len / 16 / 14 % 3], END[len / 16 % 14]].concat();
    }
    if kind == "said" {
        return SAID[len % SAID.len()].as_bytes().to_vec();
    }
    let unit: &[u8] = match kind {
        "text" => b"<svg>line of output</svg>\n",
        "utf8" => "é日😀 ß\n".as_bytes(),
        "crlf" => b"x\r\n",
        "nl" => b"\n",
        _ => b"",
    };
    if kind == "bin" {
        return (0..len).map(|i| ((i * 37 + i / 251) % 256) as u8).collect();
    }
    let mut v = Vec::with_capacity(len + unit.len());
    while !unit.is_empty() && v.len() < len {
        v.extend_from_slice(unit)
    }
    if kind != "utf8" {
        v.truncate(len);
    }
    v
}

pub fn digest(b: &[u8]) -> String {
    let h = b.iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
    format!("{}:{:016x}", b.len(), h)
}

/// A word as text, in hex if it is not UTF-8.
pub fn word(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(t) => t.to_string(),
        Err(_) => format!("hex:{}", hex(b)),
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(t: &str) -> Vec<u8> {
    (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect()
}
