//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@include mle_fns.inc
//@include end.inc
