// What the sources of the tree expect around them.
pub mod logger {
    pub mod log {
        pub fn create_logger() -> slog::Logger {
            slog::Logger::root(slog::Discard, slog::o!())
        }
    }
}
