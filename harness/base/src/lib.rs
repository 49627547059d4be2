pub mod streams;
