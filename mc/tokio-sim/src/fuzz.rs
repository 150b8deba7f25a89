pub use crate::util::linked_list::tests::fuzz_linked_list;
