//! Faults of storage and transport on bytes.
use rt::tape::{chance, choose, pick, range, small, span};
use rt::fault;

/// Bytes that join or split tokens.
const SHARP: &[u8] = b"\n\n\r \t:-#[]{},&*!|>'\"\\%.?~0a";

/// Applies one drawn fault. Positions are biased towards the end of lines and
/// indicators, where the grammar has state.
pub fn damage(b: &mut Vec<u8>) {
    span(|| {
        let sector = pick(&[1usize, 2, 4, 8, 16, 64, 512]);
        let n = b.len();
        let at = place(b);
        match choose(15) {
            0 => {
                fault("fault:truncated");
                b.truncate(at);
            }
            1 if n > 0 => {
                fault("fault:bit_flip");
                b[at.min(n - 1)] ^= 1 << choose(8);
            }
            2 if n > 0 => {
                fault("fault:byte_replaced");
                b[at.min(n - 1)] = if chance(1, 2) { choose(256) as u8 } else { pick(SHARP) };
            }
            3 => {
                fault("fault:byte_inserted");
                b.insert(at, if chance(1, 4) { choose(256) as u8 } else { pick(SHARP) });
            }
            4 if n > 0 => {
                fault("fault:bytes_lost");
                let e = (at + 1 + small(8)).min(n);
                b.drain(at.min(n - 1)..e);
            }
            5 if n > 0 => {
                fault("fault:sector_repeated");
                let a = at / sector * sector;
                let e = (a + sector).min(n);
                let s = b[a..e].to_vec();
                b.splice(e..e, s);
            }
            6 if n > 0 => {
                fault("fault:sector_lost");
                let a = at / sector * sector;
                b.drain(a..(a + sector).min(n));
            }
            7 if n > 0 => {
                fault("fault:sector_filled");
                let a = at / sector * sector;
                let e = (a + sector).min(n);
                let c = pick(&[0u8, 0xff, b' ', b'\n', 0xfe]);
                b[a..e].fill(c);
            }
            8 if n > sector => {
                fault("fault:sectors_swapped");
                let k = n / sector;
                let (i, j) = (choose(k), choose(k));
                for o in 0..sector {
                    b.swap(i * sector + o, j * sector + o);
                }
            }
            9 if n > 0 => {
                fault("fault:misdirected_write");
                let from = choose(n);
                let e = (from + sector).min(n);
                let s = b[from..e].to_vec();
                for (o, c) in s.into_iter().enumerate() {
                    if at + o < b.len() {
                        b[at + o] = c;
                    }
                }
            }
            10 => {
                fault("fault:line_noise");
                let k = range(1, 6);
                for _ in 0..k {
                    b.insert(at, choose(256) as u8);
                }
            }
            11 => {
                fault("fault:stuck_byte");
                let c = if n > 0 && chance(1, 2) { b[at.min(n - 1)] } else { pick(SHARP) };
                let k = pick(&[3usize, 20, 100, 300, 2000]);
                b.splice(at..at, std::iter::repeat_n(c, k));
            }
            13 => {
                fault("fault:foreign_text");
                let t = pick(crate::props::c01::TOKENS);
                b.splice(at..at, t.bytes());
            }
            12 => {
                fault("fault:stuck_token");
                let tok: &[u8] = pick(&[
                    b"- " as &[u8], b"[", b"{", b"? ", b"a: ", b"{a: ", b"[a, ", b"!t ", b"&a ", b"- - ", b"?\n", b"a:\n ", b"[{a: ", b"{? ", b"\n ", b"\n- ", b"'", b"\"", b"\\", b"|\n", b"*a ",
                ]);
                let k = pick(&[2usize, 10, 70, 150, 1500]);
                let v: Vec<u8> = tok.iter().copied().cycle().take(k * tok.len()).collect();
                b.splice(at..at, v);
            }
            _ => {
                fault("fault:line_ends_changed");
                let to = pick(&[b"\r" as &[u8], b"\r\n", b"\n\r", b""]);
                let mut v = vec![];
                for c in b.iter() {
                    if *c == b'\n' && chance(2, 3) {
                        v.extend_from_slice(to);
                    } else {
                        v.push(*c);
                    }
                }
                *b = v;
            }
        }
    })
}

/// A position in the bytes, inclusive of the end.
pub fn place(b: &[u8]) -> usize {
    let n = b.len();
    let at = choose(n + 1);
    if chance(1, 2) {
        // Next interesting byte.
        for i in 0..12 {
            if at + i < n && SHARP[..24].contains(&b[at + i]) {
                return at + i + choose(2);
            }
        }
    }
    at
}
