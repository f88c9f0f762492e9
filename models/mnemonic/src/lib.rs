//! Only used to name keys in log messages: a constant.
pub fn to_string<T: AsRef<[u8]>>(_data: T) -> String { String::from("mnemonic") }
