macro_rules! the_caps { () => { caps!(63 14 25 34 42 50 58 68 76 84 92 101 109 117 125 135 143 151 159 167 175 183 191 199 208 216 224 232 240 248); } }
include!("body.rs");
