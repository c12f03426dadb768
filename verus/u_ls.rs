//@include prelude.inc
//@include math.inc
//@include dmle.inc
//@import interp.inc
//@import interp_fns.inc
//@import extrap_fns.inc
//@import trans.inc
//@import eq_fns.inc
//@import vp_fns.inc
//@import pad_fns.inc
//@import pt_fns.inc
//@import mle_fix.inc
//@import scv_fns.inc
//@import sc_math.inc
//@import scp_fns.inc
//@import vt_fns.inc
//@import pw.inc
//@import vw.inc
//@include ls.inc
//@include end.inc
