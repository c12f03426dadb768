//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@include interp.inc
//@include interp_fns.inc
//@include trans.inc
//@include vpstruct.inc
//@include scv_fns.inc
//@include end.inc
