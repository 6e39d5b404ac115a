//@include prelude.rs
//@use dates.vx
//@use values.vx
//@use children.vx
//@use ctors.vx
//@include parselib.rs
//@use ast.vx
//@use parse.vx
//@use val.vx
//@use set.vx
//@use top.vx
//@include kit.vx
