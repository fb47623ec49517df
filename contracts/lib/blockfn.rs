pub open spec fn documented_as(d: Doc, name: Seq<char>) -> bool { exists|i: int, j: int| #[trigger] known(documented(), i, j, plain_name(name)) && d == documented()[i] }
