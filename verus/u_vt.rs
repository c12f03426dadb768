//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@include trans.inc
//@include eq_fns.inc
//@include vpstruct.inc
//@include vt_fns.inc
//@include end.inc
