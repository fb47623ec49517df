//@type src/tree/heading.rs HeadingLevel
//@attr #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
//@type src/tree/heading.rs Heading
//@attr #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@end
