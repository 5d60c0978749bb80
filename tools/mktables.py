"""Writes spec/Tables.tla: values of the smooth functions at the grid points used
by the specification, as limb triples (see Num.tla).  Independent of hpelm/numpy."""
from decimal import Decimal as D, getcontext
getcontext().prec = 50
def v3(x):
    n = int((x * 90000).to_integral_value(rounding='ROUND_HALF_EVEN'))
    p, r = divmod(n, 90000); q, r = divmod(r, 300)
    return "<<%d,%d,%d>>" % (p, q, r)
def tab(name, xs):
    return "%s == <<\n  %s >>\n" % (name, ",\n  ".join(v3(x) for x in xs))
out = ["------------------------------- MODULE Tables -------------------------------",
       "(* generated by tools/mktables.py: tanh(z/2) and 1/(1+exp(z/2)) for z = -40..40, *)",
       "(* exp(-m/16) for m = 1..480 *)", "EXTENDS Integers"]
z = [D(i) / 2 for i in range(-40, 41)]
out.append(tab("TanhTab", [(a.exp() - (-a).exp()) / (a.exp() + (-a).exp()) for a in z]))
out.append(tab("SigmTab", [1 / (1 + a.exp()) for a in z]))
out.append(tab("ExpTab", [(-D(m) / 16).exp() for m in range(1, 481)]))
out.append("=" * 77)
open("/verif/spec/Tables.tla", "w").write("\n".join(out) + "\n")
