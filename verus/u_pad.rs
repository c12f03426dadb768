//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@include pad_fns.inc
//@include end.inc
