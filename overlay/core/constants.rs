pub(crate) const MAX_CODEPOINT: u32 = 0x0010_ffff;
pub(crate) const ALL_CATEGORIES: u32 = 0x3fff_ffff;
