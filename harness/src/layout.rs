macro_rules! the_caps { () => { caps!(); } }
include!("body.rs");
