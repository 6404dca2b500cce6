macro_rules! the_caps { () => { caps!(63 11 21 30 39 47 55 65 73 81 89 97 106 114 122 132 140 148 156 164 172 180 188 196 205 213 221 229 237 245); } }
include!("body.rs");
