macro_rules! the_caps { () => { caps!(63 10 20 29 38 46 54 62 72 80 88 96 105 113 121 131 139 147 155 163 171 179 187 195 204 212 220 228 236 244 252); } }
include!("body.rs");
