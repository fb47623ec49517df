// What is known of the page.
pub enum ScoreValue { Integer(i32), Float(f32) }
//@type src/data/page_info.rs PageInfo
//@end
