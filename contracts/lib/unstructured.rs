//@type src/parsing/mod.rs UnstructuredParseResult
//@end
