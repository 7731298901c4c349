//! The part of `flexi_logger` scc-lib uses, logging nothing.
use std::io;
use std::path::PathBuf;

pub enum Age {
    Day,
}
pub enum Cleanup {
    KeepLogFiles(usize),
}
pub enum Criterion {
    Age(Age),
}
pub enum Duplicate {
    All,
}
pub enum Naming {
    Timestamps,
}
#[derive(Default)]
pub struct FileSpec;
impl FileSpec {
    pub fn directory(self, _: impl Into<PathBuf>) -> Self {
        self
    }
    pub fn basename(self, _: impl Into<String>) -> Self {
        self
    }
}
#[derive(Default)]
pub struct LogSpecBuilder;
pub struct LogSpecification;
impl LogSpecBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn default(&mut self, _: log::LevelFilter) -> &mut Self {
        self
    }
    pub fn build(&self) -> LogSpecification {
        LogSpecification
    }
}
pub struct Now;
impl Now {
    pub fn to_rfc2822(&self) -> String {
        String::new()
    }
}
pub struct DeferredNow;
impl DeferredNow {
    pub fn now(&self) -> Now {
        Now
    }
}
pub type FormatFunction = fn(&mut dyn io::Write, &mut DeferredNow, &log::Record<'_>) -> Result<(), io::Error>;
pub struct Logger;
pub struct LoggerHandle;
impl Logger {
    pub fn with(_: LogSpecification) -> Self {
        Self
    }
    pub fn log_to_file(self, _: FileSpec) -> Self {
        self
    }
    pub fn duplicate_to_stdout(self, _: Duplicate) -> Self {
        self
    }
    pub fn rotate(self, _: Criterion, _: Naming, _: Cleanup) -> Self {
        self
    }
    pub fn format(self, _: FormatFunction) -> Self {
        self
    }
    pub fn start(self) -> Result<LoggerHandle, io::Error> {
        Ok(LoggerHandle)
    }
}
