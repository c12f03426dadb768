//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@include interp.inc
//@include interp_fns.inc
//@include extrap_fns.inc
//@include trans.inc
//@include vpstruct.inc
//@include mle_fix.inc
//@include scv_fns.inc
//@include sc_math.inc
//@include scp_fns.inc
//@include end.inc
