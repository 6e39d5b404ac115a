//@include prelude.rs
//@use dates.vx
//@use values.vx
//@use children.vx
//@include parselib.rs
//@use ast.vx
//@use val.vx
//@use mean.vx
//@use map.vx
//@include state.vx
