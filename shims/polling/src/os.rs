//! Platform-specific functionality (none in the virtual backend).
