macro_rules! the_caps { () => { caps!(63 6 18 27 36 44 52 60 70 78 86 94 103 111 119 129 137 145 153 161 169 177 185 193 202 210 218 226 234 242 250); } }
include!("body.rs");
