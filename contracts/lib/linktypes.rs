// What links point to, and what they are called.
//@type src/data/page_ref.rs PageRef
//@end
//@type src/tree/link.rs LinkLocation
//@end
//@type src/tree/link.rs LinkLabel
//@end
