pub mod prelude {}
