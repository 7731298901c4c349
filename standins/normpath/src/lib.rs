//! scc-lib uses `normpath` on Windows only.
pub trait PathExt {}
