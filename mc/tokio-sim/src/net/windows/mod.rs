
pub mod named_pipe;
