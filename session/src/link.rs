pub fn hex(b: &[u8]) -> String { b.iter().take(80).map(|x| format!("{x:02x}")).collect() }
