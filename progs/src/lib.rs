pub use householder;
