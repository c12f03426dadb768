//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@import trans.inc
//@import eq_fns.inc
//@include vpstruct.inc
//@import vt_fns.inc
//@import vw.inc
//@include iop.inc
//@include gv1.inc
//@include end.inc
