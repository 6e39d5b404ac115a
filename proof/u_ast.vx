//@include prelude.rs
//@use dates.vx
//@use values.vx
//@use children.vx
//@include parselib.rs
//@include ast.vx
//@include parse.vx
//@include top.vx
//@include topparse.vx
