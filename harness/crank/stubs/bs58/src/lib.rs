//! Stand-in for the base-58 text codec: the same interface, writing hexadecimal digits. The text is only
//! handed to the (modelled) RPC node, and base conversion of symbolic bytes is out of a solver's reach.
pub struct EncodeBuilder<I>(I);
pub fn encode<I: AsRef<[u8]>>(i: I) -> EncodeBuilder<I> { EncodeBuilder(i) }
impl<I: AsRef<[u8]>> EncodeBuilder<I> {
    pub fn into_string(self) -> String {
        let mut v = Vec::new();
        for b in self.0.as_ref() { v.push(b'a' + (b >> 4)); v.push(b'a' + (b & 15)); }
        unsafe { String::from_utf8_unchecked(v) }
    }
}
