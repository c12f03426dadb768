//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@import trans.inc
//@import eq_fns.inc
//@include vpstruct.inc
//@import vt_fns.inc
//@import vw.inc
//@include iop.inc
//@import gv1.inc
//@import gv2.inc
//@include gv12.inc
//@include end.inc
