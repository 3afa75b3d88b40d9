//! What the harness sees of the compiler besides its interface: the hooks, or,
//! if they do not build (`--cfg vp_public`), stand-ins that see nothing.

#[cfg(not(vp_public))]
pub use rescan::vp::*;

#[cfg(vp_public)]
pub use public::*;

/// Whether a scan succeeds (nothing to see without a scratch).
pub fn scans(db: &rescan::Database, data: &[u8]) -> bool {
    #[cfg(not(vp_public))]
    return rescan::scan(db, data, &mut scratch()).is_ok();
    #[cfg(vp_public)]
    return !data.is_empty() || db as *const _ as usize != 0;
}

#[cfg(vp_public)]
mod public {
    use rescan::{compile_multi, CompileError, Database, Flags, Mode};

    #[derive(Clone, Copy, Debug, Eq, PartialEq)]
    pub struct Limits {
        pub allow_literal: bool,
        pub flood_as_puffette: bool,
        pub shortcut_literals: bool,
        pub allow_small_write: bool,
        pub small_write_largest_buffer: usize,
        pub small_write_max_patterns: usize,
        pub small_write_max_literals: usize,
        pub limit_pattern_count: usize,
        pub limit_pattern_length: usize,
        pub limit_report_count: usize,
    }

    impl Default for Limits {
        fn default() -> Self {
            Self {
                allow_literal: true,
                flood_as_puffette: true,
                shortcut_literals: true,
                allow_small_write: true,
                small_write_largest_buffer: 70,
                small_write_max_patterns: 10_000,
                small_write_max_literals: 10_000,
                limit_pattern_count: 8_000_000,
                limit_pattern_length: 16_000,
                limit_report_count: 32_000_000,
            }
        }
    }

    /// Nothing is known of a state.
    #[derive(Clone, Debug)]
    pub struct Snapshot;

    pub fn record<R>(_last_only: bool, f: impl FnOnce() -> R) -> (R, Vec<Snapshot>) {
        (f(), Vec::new())
    }
    pub fn take_steps() -> Vec<Snapshot> {
        Vec::new()
    }
    pub fn watch(_f: Option<Box<dyn FnMut(Snapshot, bool)>>) {}

    /// Only for default limits.
    pub fn compile_with_limits(
        expressions: &[&str],
        flags: &[Flags],
        ids: &[u32],
        mode: &Mode,
        limits: &Limits,
    ) -> Result<Database, CompileError> {
        assert!(*limits == Limits::default());
        compile_multi(expressions, flags, ids, mode)
    }

    pub fn database_info(_db: &Database) -> (&'static str, &'static str) {
        ("?", "?")
    }

    pub fn error_info(e: &CompileError) -> (String, String, Option<u32>) {
        let told = format!("{:?}", e);
        let word = |key: &str, stop: fn(char) -> bool| -> Option<String> {
            let p = told.rfind(key)? + key.len();
            Some(told[p..].chars().take_while(|c| !stop(*c)).collect())
        };
        let kind = told.find("kind: ").map_or(String::new(), |p| {
            told[p + 6..].chars().take_while(|c| c.is_alphanumeric()).collect()
        });
        let index = word("index: Some(", |c| c == ')').and_then(|s| s.parse().ok());
        let shown = e.to_string();
        let reason = match index {
            Some(i) => {
                let i: u32 = i;
                shown.strip_suffix(&format!(" in expression {}", i)).unwrap_or(&shown).to_string()
            }
            None => shown,
        };
        (kind, reason, index)
    }
}
