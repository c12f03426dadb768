//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@import interp.inc
//@import trans.inc
//@import eq_fns.inc
//@import vpstruct.inc
//@import vt_fns.inc
//@import interp_fns.inc
//@import scv_fns.inc
//@include vc_fns.inc

//@include end.inc
