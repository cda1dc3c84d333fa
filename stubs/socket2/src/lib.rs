pub use socket2_new::*;
