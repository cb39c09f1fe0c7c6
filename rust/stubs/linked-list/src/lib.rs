//! Offline stand-in; declared but unused by the code under test.
