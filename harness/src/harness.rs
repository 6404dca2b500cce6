macro_rules! the_caps { () => { caps!(1 2 3 4 5 7 8 15 16 23 31 63 64 100 127 128 200 253 254 255); } }
include!("body.rs");
