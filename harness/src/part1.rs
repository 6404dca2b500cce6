macro_rules! the_caps { () => { caps!(63 9 19 28 37 45 53 61 71 79 87 95 104 112 120 130 138 146 154 162 170 178 186 194 203 211 219 227 235 243 251); } }
include!("body.rs");
