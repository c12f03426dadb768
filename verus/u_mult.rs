//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@include fmap.inc
//@include mult.inc
//@include end.inc
