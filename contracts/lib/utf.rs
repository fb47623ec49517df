// UTF-8 and UTF-16 widths of characters, by the encoding standards.
pub open spec fn w8(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
pub open spec fn w16(c: char) -> nat { if (c as u32) < 0x10000 { 1 } else { 2 } }
pub open spec fn len8(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { len8(s.drop_last()) + w8(s.last()) }
}
pub open spec fn len16(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { len16(s.drop_last()) + w16(s.last()) }
}
pub proof fn len16_le_len8(s: Seq<char>)
    ensures len16(s) <= len8(s), s.len() <= len8(s),
    decreases s.len(),
{ if s.len() > 0 { len16_le_len8(s.drop_last()); } }
pub proof fn len8_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures len8(s.take(i)) <= len8(s.take(j)), len16(s.take(i)) <= len16(s.take(j)), i < j ==> len8(s.take(i)) < len8(s.take(j)),
    decreases j - i,
{
    if i < j {
        len8_mono(s, i, j - 1);
        assert(s.take(j).drop_last() =~= s.take(j - 1));
    }
}
pub proof fn len_step(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures len8(s.take(i + 1)) == len8(s.take(i)) + w8(s[i]), len16(s.take(i + 1)) == len16(s.take(i)) + w16(s[i]),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
pub trait StrUtf {
    spec fn su(&self) -> Seq<char>;
    fn x_char_indices(&self) -> (r: Vec<(usize, char)>)
        ensures
            r.len() == self.su().len(),
            len8(self.su()) <= usize::MAX,
            forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).1 == self.su()[i] && r[i].0 == len8(self.su().take(i));
    fn x_len(&self) -> (r: usize) ensures r == len8(self.su());
}
impl StrUtf for str {
    open spec fn su(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn x_char_indices(&self) -> (r: Vec<(usize, char)>) { self.char_indices().collect() }
    #[verifier::external_body]
    fn x_len(&self) -> (r: usize) { self.len() }
}
pub trait CharUtf {
    spec fn cu(&self) -> char;
    fn x_len_utf16(&self) -> (r: usize) ensures r == w16(self.cu());
    fn x_len_utf8(&self) -> (r: usize) ensures r == w8(self.cu());
}
impl CharUtf for char {
    open spec fn cu(&self) -> char { *self }
    #[verifier::external_body]
    fn x_len_utf16(&self) -> (r: usize) { self.len_utf16() }
    #[verifier::external_body]
    fn x_len_utf8(&self) -> (r: usize) { self.len_utf8() }
}
