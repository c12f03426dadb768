//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@include interp.inc
//@include interp_fns.inc
//@include extrap_fns.inc
//@include end.inc
