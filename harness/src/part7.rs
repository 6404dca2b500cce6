macro_rules! the_caps { () => { caps!(63 17 26 35 43 51 59 69 77 85 93 102 110 118 126 136 144 152 160 168 176 184 192 201 209 217 225 233 241 249); } }
include!("body.rs");
