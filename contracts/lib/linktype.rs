//@type src/tree/link.rs LinkType
//@attr #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
