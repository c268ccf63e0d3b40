//! Intel I8HEX decoding. Strict: every rule of the format. Lenient: only what
//! is needed to read the bytes (checksums and the end record are not judged).

pub struct Decoded {
    /// (address, byte), sorted by address.
    pub bytes: Vec<(u32, u8)>,
}

pub fn decode(text: &[u8], strict: bool) -> Result<Decoded, String> {
    let s = std::str::from_utf8(text).map_err(|_| "output is not text".to_string())?;
    if strict && !s.ends_with('\n') {
        return Err("output does not end in a newline".into());
    }
    let body = s.strip_suffix('\n').unwrap_or(s);
    let lines: Vec<&str> = body.split('\n').collect();
    let mut bytes: Vec<(u32, u8)> = Vec::new();
    let mut eof = 0;
    for (n, line) in lines.iter().enumerate() {
        let at = |m: &str| format!("record {} ({:?}): {}", n + 1, line, m);
        let l = line.strip_prefix(':').ok_or_else(|| at("does not start with ':'"))?;
        if l.len() % 2 != 0 || !l.bytes().all(|b| b.is_ascii_hexdigit()) {
            return Err(at("is not an even number of hex digits"));
        }
        let raw: Vec<u8> = (0..l.len() / 2)
            .map(|k| u8::from_str_radix(&l[2 * k..2 * k + 2], 16).unwrap())
            .collect();
        if raw.len() < 5 {
            return Err(at("is too short"));
        }
        let count = raw[0] as usize;
        let addr = ((raw[1] as u32) << 8) | raw[2] as u32;
        if raw.len() != count + 5 {
            return Err(at("has a wrong byte count"));
        }
        if strict && raw.iter().fold(0u8, |a, b| a.wrapping_add(*b)) != 0 {
            return Err(at("has a wrong checksum"));
        }
        match raw[3] {
            0 => {
                if strict && eof > 0 {
                    return Err(at("follows the end-of-file record"));
                }
                for (k, b) in raw[4..4 + count].iter().enumerate() {
                    bytes.push((addr + k as u32, *b));
                }
            }
            1 => {
                eof += 1;
                if strict && (count != 0 || addr != 0) {
                    return Err(at("is not a plain end-of-file record"));
                }
                if strict && n + 1 != lines.len() {
                    return Err(at("end-of-file record before the end"));
                }
            }
            _ => {
                if strict {
                    return Err(at("has a type other than 00 or 01"));
                }
            }
        }
    }
    if strict && eof != 1 {
        return Err(format!("{} end-of-file records", eof));
    }
    bytes.sort();
    if strict {
        for w in bytes.windows(2) {
            if w[0].0 == w[1].0 {
                return Err(format!("address ${:03X} is written by two records", w[0].0));
            }
        }
        if let Some((a, _)) = bytes.last() {
            if *a > 0xFFF {
                return Err(format!("address ${:X} is beyond $FFF", a));
            }
        }
    }
    Ok(Decoded { bytes })
}
