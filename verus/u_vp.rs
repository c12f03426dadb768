//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@include eq_fns.inc
//@include vp_fns.inc
//@include end.inc
