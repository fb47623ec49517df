// The tokens of a text together with the text.
//@type src/tokenizer.rs Tokenization
//@end
impl<'t> Tokenization<'t> {
    // What tokenizing gives (unit tokens) and parsing requires (unit top).
    pub open spec fn wf(&self) -> bool {
        &&& self.tokens@.len() > 0
        &&& covers(self.full_text.text@, self.tokens@)
        &&& forall|i: int| 0 <= i < self.tokens@.len() ==> ((#[trigger] self.tokens@[i]).token == Token::InputEnd <==> i == self.tokens@.len() - 1)
    }
}
