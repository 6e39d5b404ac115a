//@include prelude.rs
//@include dates.vx
//@include values.vx
//@include ctors.vx
//@include children.vx
