//! Chunk contents are a pure function of (tag, index, kind), so that agents and
//! oracles agree on what was submitted without storing it.
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}
/// kind: "none", "empty", "str", "bin", "big", "mix" or "obj" (object storage).
pub fn chunk(tag: &str, i: u64, kind: &str) -> Option<Vec<u8>> {
    let seed = fnv(format!("{tag}/{i}").as_bytes());
    let kind = match kind {
        "mix" => ["none", "empty", "str", "bin", "big"][(seed % 5) as usize],
        k => k,
    };
    let rnd = |n: usize| {
        let mut s = seed;
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            v.push((s >> 33) as u8);
        }
        v
    };
    match kind {
        "none" | "obj" => None,
        "empty" => Some(vec![]),
        "bin" => Some(rnd((seed % 300) as usize + 1)),
        "big" => Some(rnd((seed % 60_000) as usize + 4000)),
        _ => Some(format!("{tag}/{i}").into_bytes()),
    }
}
/// (length or -1, hash) of a content as it is logged.
pub fn sig(c: &Option<Vec<u8>>) -> (i64, u64) {
    match c {
        None => (-1, 0),
        Some(v) => (v.len() as i64, fnv(v)),
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// What a submission's metadata bytes look like: the tag, then optional binary tail.
pub fn metadata(tag: &str, tail: u64) -> Vec<u8> {
    let mut v = tag.as_bytes().to_vec();
    if tail > 0 {
        v.push(0);
        let mut s = fnv(tag.as_bytes());
        for _ in 0..tail {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            v.push((s >> 33) as u8);
        }
    }
    v
}
pub fn tag_of(meta: &[u8]) -> String {
    let e = meta.iter().position(|b| *b == 0).unwrap_or(meta.len());
    String::from_utf8_lossy(&meta[..e]).into_owned()
}
