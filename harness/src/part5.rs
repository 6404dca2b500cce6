macro_rules! the_caps { () => { caps!(63 13 24 33 41 49 57 67 75 83 91 99 108 116 124 134 142 150 158 166 174 182 190 198 207 215 223 231 239 247); } }
include!("body.rs");
