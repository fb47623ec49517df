// A vector with at least one element behaves as the sequence of its elements.
//@use nonempty
