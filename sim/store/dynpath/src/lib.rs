/// `#[dynpath("VAR", "file")] mod name;`: a module from a file of the build.
#[macro_export]
macro_rules! wrap {
    (#[allow(unused)] #[dynpath($var:literal, $file:literal)] mod $name:ident;) => {
        #[allow(unused)]
        mod $name {
            include!(concat!(env!($var), "/", $file));
        }
    };
}
