//! Stand-in for directories-next: no home directory is ever found.
pub struct ProjectDirs;
impl ProjectDirs {
    pub fn from(_: &str, _: &str, _: &str) -> Option<ProjectDirs> {
        None
    }
    pub fn config_dir(&self) -> &std::path::Path {
        unreachable!()
    }
    pub fn data_local_dir(&self) -> &std::path::Path {
        unreachable!()
    }
}
