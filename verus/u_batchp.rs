//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@import interp.inc
//@import trans.inc
//@import eq_fns.inc
//@import vp_fns.inc
//@import interp_fns.inc
//@import scv_fns.inc
//@import mle_fns.inc
//@import extrap_fns.inc
//@import mle_fix.inc
//@import sc_math.inc
//@import scp_fns.inc
//@include grp.inc
//@import kzg.inc
//@include log2.inc
//@import batch_v.inc
//@include batch_p.inc
//@include end.inc
