T = "src/types.rs"; P = "src/internals/parser.rs"; O = "src/internals/objects.rs"; S = "src/internals/ast/structs.rs"; R = "src/internals/primitives.rs"; K = "src/bin/tomlkit.rs"
PRE = "#![allow(unused)]\nuse tomllib::TOMLParser; use tomllib::types::*; use std::rc::Rc;\n"
KIT = "#![allow(unused)]\nuse std::process::{Command, Stdio};\nfn kit(args: &[&str]) -> String { let o = Command::new(std::env::var(\"TOMLKIT\").unwrap()).args(args).stdin(Stdio::null()).output().unwrap(); String::from_utf8_lossy(&o.stdout).into_owned() }\n"
BUGS = [
 dict(id="leap-400", property="C07", file=T, edits=[("} else if y % 400 != 0 {", "} else if y % 200 != 0 {")],
  needs="February 29th of a century year divisible by 200 but not by 400", breaks="2200-02-29 is accepted as a date",
  main=PRE + 'fn main() { assert!(Date::from_str("2200", "02", "29").is_err()); assert!(Date::from_str("2000", "02", "29").is_ok()); let (_, r) = TOMLParser::new().parse("d = 1400-02-29"); assert!(!matches!(r, ParseResult::Full)); }\n'),
 dict(id="offset-eq", property="C16", file=T, edits=[("    self.pos_neg == other.pos_neg &&\n    self.hour == other.hour &&\n    self.minute == other.minute\n", "    self.pos_neg == other.pos_neg &&\n    self.hour == other.hour\n")],
  needs="two date-times that differ only in the minutes of their offset", breaks="values with different offset minutes compare equal",
  main=PRE + 'fn main() { let a = Value::datetime_offset_from_int(2010, 1, 2, 3, 4, 5, \'+\', 5, 30).unwrap(); let b = Value::datetime_offset_from_int(2010, 1, 2, 3, 4, 5, \'+\', 5, 45).unwrap(); assert!(a != b); assert!(a == a.clone()); }\n'),
 dict(id="offset-pad", property="C08", file=T, edits=[('''    let f = format!("{}", frac);
    let oh = format!("{:0>2}", off_hour);
    let omin = format!("{:0>2}", off_minute);''', '''    let f = format!("{}", frac);
    let oh = format!("{:0>2}", off_hour);
    let omin = format!("{:0<2}", off_minute);''')],
  needs="datetime_full_from_int with an offset of 1 to 5 minutes past the hour", breaks="an offset of 5 minutes becomes 50 minutes",
  main=PRE + 'fn main() { let v = Value::datetime_full_from_int(2010, 1, 2, 3, 4, 5, 6, \'-\', 7, 5).unwrap(); assert_eq!(format!("{}", v), "2010-01-02T03:04:05.6-07:05"); }\n'),
 dict(id="combine-self", property="C09", file=T, edits=[('          if base != "" {\n            let mut full_key', '          if base != "" && !base.ends_with(&*subkey) {\n            let mut full_key')],
  needs="a sub-key whose name is the end of its parent's key", breaks="combine_child_keys leaves out the base for such a child",
  main=PRE + 'fn main() { let (p, _) = TOMLParser::new().parse("[net]\\nt = 1\\nu = 2\\n"); assert_eq!(p.get_children("net").unwrap().combine_child_keys("net"), vec!["net.t".to_string(), "net.u".to_string()]); }\n'),
 dict(id="sep-swap", property="C01", file=S, edits=[('Some(ref s) => try!(write!(f, "{}{},{}", self.keyval, s.ws1, s.ws2)),', 'Some(ref s) => try!(write!(f, "{},{}{}", self.keyval, s.ws1, s.ws2)),')],
  needs="an inline table with white space before a comma", breaks="the white space before the comma is displayed behind it",
  main=PRE + 'fn main() { let t = "a = {x = 1 , y = 2\\t,z = 3}\\n"; let (p, _) = TOMLParser::new().parse(t); assert_eq!(format!("{}", p), t); }\n'),
 dict(id="same-length-kept", property="C03", file=P, edits=[("          if !Parser::replace_values(&borrow.keyvals[i].keyval.val, &t_it[i].1) {\n            return false;\n          }", "          if format!(\"{}\", *borrow.keyvals[i].keyval.val.borrow()).len() != format!(\"{}\", t_it[i].1).len() || !Parser::same_structure(&borrow.keyvals[i].keyval.val, &t_it[i].1) {\n            if !Parser::replace_values(&borrow.keyvals[i].keyval.val, &t_it[i].1) {\n              return false;\n            }\n          }")],
  needs="an inline table set to one of the same shape where a new scalar's text has the length of the old one", breaks="the scalar keeps its old value although true is returned",
  main=PRE + 'fn main() { let (mut p, _) = TOMLParser::new().parse("a = {x = 1 , y = 2}\\n"); assert!(p.set_value("a", Value::InlineTable(Rc::new(vec![("x".into(), Value::int(5)), ("y".into(), Value::int(66))])))); assert_eq!(format!("{}", p), "a = {x = 5 , y = 66}\\n"); }\n'),
 dict(id="stale-grandchildren", property="C04", file=P, edits=[('            let subkey = format!("{}.{}", key, childkey);\n            all_keys.push(subkey.clone());\n            all_keys.append(&mut self.get_all_subkeys(&subkey));', '            let subkey = format!("{}.{}", key, childkey);\n            all_keys.push(subkey.clone());')],
  needs="a container inside an inline table that is replaced by a value of another shape", breaks="keys of elements that no longer exist can still be read",
  main=PRE + 'fn main() { let (mut p, _) = TOMLParser::new().parse("a = {x = [1, 2], y = 2}\\n"); assert!(p.set_value("a", Value::int(5))); assert_eq!(p.get_value("a.x"), None); assert_eq!(p.get_value("a.x[1]"), None); }\n'),
 dict(id="structure-keys", property="C04", file=P, edits=[("          if borrow.keyvals[i].keyval.key != t_it[i].0 ||\n            !Parser::same_structure", "          if borrow.keyvals[i].keyval.key.len() != t_it[i].0.len() ||\n            !Parser::same_structure")],
  needs="an inline table replaced by one whose keys differ but have the same lengths", breaks="the old keys stay",
  main=PRE + 'fn main() { let (mut p, _) = TOMLParser::new().parse("a = {x = 1, y = 2}\\n"); assert!(p.set_value("a", Value::InlineTable(Rc::new(vec![("x".into(), Value::int(5)), ("z".into(), Value::int(66))])))); assert_eq!(p.get_value("a.z"), Some(Value::int(66))); assert_eq!(p.get_value("a.y"), None); }\n'),
 dict(id="mixed-containers", property="C14", file=O, edits=[("    &TOMLValue::InlineTable(_)    => ArrayType::InlineTable,", "    &TOMLValue::InlineTable(_)    => ArrayType::Array,")],
  needs="an array that holds arrays and inline tables", breaks="the mixed array is not reported",
  main=PRE + 'fn main() { let (_, r) = TOMLParser::new().parse("a = [[1], {x = 1}]\\n"); assert!(matches!(r, ParseResult::FullError(_))); let (_, r) = TOMLParser::new().parse("a = [{y = 1}, {x = 1}]\\n"); assert!(matches!(r, ParseResult::Full)); }\n'),
 dict(id="index-wrap", property="C15", file=R, edits=[("if let &mut Key::Index(ref mut i) = self {\n      i.set(i.get() + 1);", "if let &mut Key::Index(ref mut i) = self {\n      i.set((i.get() + 1) % 64);")],
  needs="an array of more than 64 elements", breaks="the 65th element overwrites the key of the first",
  main=PRE + 'fn main() { let t = format!("a = [{}]\\n", (0..70).map(|i| i.to_string()).collect::<Vec<_>>().join(", ")); let (p, r) = TOMLParser::new().parse(&t); assert!(matches!(r, ParseResult::Full)); assert_eq!(p.get_value("a[66]"), Some(Value::int(66))); }\n'),
 dict(id="getchildren-sep", property="C12", file=K, kit=True, edits=[("              for i in 0..ckeys.borrow().len() - 1 {\n                val.push_str(&ckeys.borrow()[i]);\n                val.push_str(arr_sep);\n              }", "              for i in 0..ckeys.borrow().len() - 1 {\n                val.push_str(&ckeys.borrow()[i]);\n                val.push_str(if arr_len { sep } else { arr_sep });\n              }")],
  needs="get-children with --array-length and an array separator that differs from the separator", breaks="children are separated by the wrong text",
  main=KIT + 'fn main() { std::fs::write("a.toml", "[t]\\nx = 1\\ny = 2\\nz = 3\\n").unwrap(); let o = kit(&["--array-length", "--array-separator", "; ", "--get-children", "t", "--input-file", "a.toml"]); assert_eq!(o.trim_end(), "3; x; y; z"); }\n'),
 dict(id="set-partial-write", property="C13", file=K, kit=True, edits=[("        if let Ok(_) = result[result.len() - 1] {\n          // Write back out to the file", "        if result[result.len() - 1].is_ok() || (out_file != file_path && format!(\"{}\", parser) != file) {\n          // Write back out to the file")],
  needs="a set-value command with an output file whose second change is invalid", breaks="the output file is written with the first change although an error is printed",
  main=KIT + 'fn main() { std::fs::write("a.toml", "x = 1\\ny = 2\\n").unwrap(); std::fs::write("b.toml", "old").unwrap(); let o = kit(&["--set-value", "x,3,int,zz,4,int", "--input-file", "a.toml", "--output-file", "b.toml"]); assert!(o.contains("Error"), "{}", o); assert_eq!(std::fs::read_to_string("b.toml").unwrap(), "old"); assert_eq!(std::fs::read_to_string("a.toml").unwrap(), "x = 1\\ny = 2\\n"); }\n'),
 dict(id="table-dup-after-array", property="C10", file=O, edits=[("          if let TableType::Standard(ref tbl) = *res {\n            self.array_error.set(false);", "          if let TableType::Standard(ref tbl) = *res {\n            if self.array_error.get() { self.errors.borrow_mut().pop(); }\n            self.array_error.set(false);")],
  needs="an invalid table directly followed by a valid standard table", breaks="the error of the invalid table disappears",
  main=PRE + 'fn main() { let (_, r) = TOMLParser::new().parse("[a]\\nx = 1\\n[a]\\ny = 2\\n[b]\\nz = 3\\n"); match r { ParseResult::FullError(e) => assert_eq!(e.borrow().len(), 1), _ => panic!("no errors") } }\n'),
 dict(id="invalid-time-of-date", property="C10", file=R, edits=[("          ).1, self.line_count.get(), 0, input[0..parsed_len].into()", "          ).1, self.line_count.get(), 0, input[0..if o.date.validate() { parsed_len } else { 10 }].into()")],
  needs="an impossible date that is followed by a time", breaks="the error carries only the date's text",
  main=PRE + 'fn main() { let (_, r) = TOMLParser::new().parse("a = 2015-13-01T01:02:03\\n"); match r { ParseResult::FullError(e) => match &e.borrow()[0] { ParseError::InvalidDateTime(_, _, _, t) => assert_eq!(&**t, "2015-13-01T01:02:03"), o => panic!("{:?}", o) }, _ => panic!() } }\n'),
]
