use crate::case::Sub;
pub mod build;
mod doc;
mod page;
mod render;
mod rules;
mod text;
pub const ALL: [&str; 28] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28"];
pub fn subs(p: &str) -> Option<Vec<Sub>> {
    Some(match p {
        "C03" => page::c03(), "C04" => page::c04(), "C05" => page::c05(),
        "C01" => doc::c01(), "C02" => render::c02(), "C09" => doc::c09(), "C19" => doc::c19(), "C21" => doc::c21(), "C22" => doc::c22(), "C24" => doc::c24(), "C27" => doc::c27(),
        "C10" => text::c10(), "C12" => text::c12(), "C13" => text::c13(), "C15" => text::c15(), "C16" => text::c16(),
        "C06" => rules::c06(), "C07" => rules::c07(), "C08" => rules::c08(), "C11" => rules::c11(), "C14" => rules::c14(), "C17" => rules::c17(), "C18" => rules::c18(), "C20" => rules::c20(), "C23" => rules::c23(), "C25" => rules::c25(), "C26" => rules::c26(), "C28" => rules::c28(),
        "X" => vec![build::sub("x", 1)],
        _ => return None,
    })
}
