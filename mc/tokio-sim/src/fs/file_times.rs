use std::time::SystemTime;

#[cfg(target_vendor = "apple")]
use std::os::darwin::fs::FileTimesExt;
#[cfg(windows)]
use std::os::windows::fs::FileTimesExt;

#[derive(Debug, Clone, Default)]
#[must_use = "must be applied to a file via `File::set_times` to have any effect"]
pub struct FileTimes {
    accessed: Option<SystemTime>,
    modified: Option<SystemTime>,
    #[cfg(any(windows, target_vendor = "apple"))]
    created: Option<SystemTime>,
}

impl FileTimes {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn set_accessed(mut self, t: SystemTime) -> Self {
        self.accessed = Some(t);
        self
    }

    pub fn set_modified(mut self, t: SystemTime) -> Self {
        self.modified = Some(t);
        self
    }

    #[cfg(any(all(doc, docsrs), windows, target_vendor = "apple"))]
    #[cfg_attr(docsrs, doc(cfg(any(windows, target_vendor = "apple"))))]
    pub fn set_created(mut self, t: SystemTime) -> Self {
        self.created = Some(t);
        self
    }

    pub(crate) fn into_std(self) -> std::fs::FileTimes {
        let mut std_times = std::fs::FileTimes::new();
        if let Some(accessed) = self.accessed {
            std_times = std_times.set_accessed(accessed);
        }
        if let Some(modified) = self.modified {
            std_times = std_times.set_modified(modified);
        }
        #[cfg(any(windows, target_vendor = "apple"))]
        if let Some(created) = self.created {
            std_times = std_times.set_created(created);
        }
        std_times
    }
}
