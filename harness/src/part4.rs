macro_rules! the_caps { () => { caps!(63 12 22 32 40 48 56 66 74 82 90 98 107 115 123 133 141 149 157 165 173 181 189 197 206 214 222 230 238 246); } }
include!("body.rs");
