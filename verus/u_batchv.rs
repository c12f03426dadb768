//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@import interp.inc
//@import trans.inc
//@import eq_fns.inc
//@import vpstruct.inc
//@import interp_fns.inc
//@import scv_fns.inc
//@import mle_fns.inc
//@include grp.inc
//@import kzg.inc
//@include log2.inc
//@include batch_v.inc
//@include end.inc
